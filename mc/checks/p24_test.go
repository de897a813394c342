package checks

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"net/netip"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/gostor/gotgt/pkg/config"
	"verifmc/h"
	"verifmc/shim"
)

func init() {
	reg("P24", "model_checking",
		"every configuration built from small sets of storages, portals and targets saved and loaded again; for pairs of configurations every file operation of the replacement made to fail and every crash point between them with unsynced data whole, torn or lost; every prefix and every one-byte change of a configuration file loaded, and the service brought up from what was accepted; bad configurations; oracle: the configuration, an independent reading of its rules, and what an initiator sees; a state is (configuration, file operation, outcome)",
		p24)
}

func p24canon(c *config.Config) string {
	b, err := json.Marshal(c)
	if err != nil {
		panic(err)
	}
	return string(b)
}

func p24configs() (out []*config.Config) {
	st := [][]config.BackendStorage{nil,
		{{DeviceID: 0, Path: "file:/a b/ü\".img", Online: true}},
		{{DeviceID: math.MaxUint64, Path: "null:", ThinProvisioning: true, BlockShift: 12}, {DeviceID: 1, Path: "file:<&>\\:x"}},
		{{DeviceID: 1 << 53, Path: "", Online: true, ThinProvisioning: true}, {DeviceID: 1<<53 + 1, Path: "x:y", BlockShift: 9}, {DeviceID: 7}}}
	po := [][]config.ISCSIPortalInfo{nil, {{0, "1.2.3.4:3260"}}, {{65535, "[fe80::1%eth0]:3260"}, {1, "\u2028"}}}
	tg := []map[string]config.ISCSITarget{{},
		{"iqn.a": {TPGTs: map[string][]uint64{"1": {0}}, LUNs: map[string]uint64{"0": 0}}},
		{"iqn.a:\"x\"": {TPGTs: map[string][]uint64{"1": {0, 65535}, "65535": {}}, LUNs: map[string]uint64{"0": math.MaxUint64, "16383": 1, "": 1 << 53}}, "b\n": {}},
		{"": {TPGTs: map[string][]uint64{}, LUNs: map[string]uint64{}}, "c": {TPGTs: map[string][]uint64{"1": {}}}, "é": {LUNs: map[string]uint64{"1": 1}}}}
	for _, s := range st {
		for _, p := range po {
			for _, t := range tg {
				out = append(out, &config.Config{Storages: s, ISCSIPortals: p, ISCSITargets: t})
			}
		}
	}
	return
}

func p24dir(k *Case) string {
	d, err := os.MkdirTemp(h.ScratchDir(), "cfg")
	if err != nil {
		panic(err)
	}
	return d
}

func p24(c *Ctx) {
	confs := p24configs()
	// what is saved is what is loaded
	for n, cf := range confs {
		c.Case(fmt.Sprintf("trip/%d", n), func(k *Case) {
			d := p24dir(k)
			defer os.RemoveAll(d)
			want := p24canon(cf)
			for _, f := range []string{filepath.Join(d, config.ConfigFileName), filepath.Join(d, "new", "dir", config.ConfigFileName)} {
				if err := cf.Save(f); err != nil {
					k.Fail("save", "Save: %v", err)
					return
				}
				got, err := config.Load(filepath.Dir(f))
				k.Op(2)
				if err != nil || got == nil || p24canon(got) != want {
					k.Fail("round-trip", "%s is loaded as %v (%v)", want, got, err)
					return
				}
				if p24canon(cf) != want {
					k.Fail("round-trip", "Save changed the configuration")
				}
				if config.GetConfig() == nil || p24canon(config.GetConfig()) != want {
					k.Fail("current", "GetConfig after Load: %v", config.GetConfig())
				}
				k.State(want)
			}
			got, err := config.Load(filepath.Join(d, "missing"))
			if err != nil || got == nil || len(got.Storages)+len(got.ISCSIPortals)+len(got.ISCSITargets) != 0 {
				k.Fail("missing", "Load of a directory without a configuration: %v %v", got, err)
			}
			if err := cf.Save(""); err == nil {
				k.Fail("save", "Save to no file succeeds")
			}
		})
	}
	// replacement, with every operation failing and every crash point
	pick := Pick(c, 16, len(confs))
	for a := -1; a < len(confs); a++ {
		for b := range confs {
			if a >= 0 && (a*7+b)%len(confs) >= pick || a == b {
				continue
			}
			c.Case(fmt.Sprintf("crash/%d/%d", a, b), func(k *Case) { p24replace(k, confs, a, b) })
		}
	}
	p24edits(c)
	p24bad(c)
}

func p24replace(k *Case, confs []*config.Config, a, b int) {
	total := -1
	for fail := -1; fail < 40 && (total < 0 || fail < total); fail++ {
		d := p24dir(k)
		f := filepath.Join(d, config.ConfigFileName)
		old := `{"storages":null,"iscsiportals":null,"iscsitargets":{}}`
		durable := map[string][]byte{} // file -> synced contents
		if a >= 0 {
			if err := confs[a].Save(f); err != nil {
				k.Fail("save", "Save: %v", err)
			}
			old = p24canon(confs[a])
			durable[f], _ = os.ReadFile(f)
		}
		want := p24canon(confs[b])
		fresh := map[string]bool{}
		cd := p24dir(k)
		check := func(when string) {
			cur, err := os.ReadFile(f)
			if err != nil {
				if a >= 0 {
					k.Fail("crash", "%s: the configuration file is gone", when)
				}
				return
			}
			ss := [][]byte{cur}
			if dur, ok := durable[f]; !ok || !bytes.Equal(dur, cur) {
				ss = append(ss, dur, cur[:len(cur)/2], cur[:0])
			}
			for _, s := range ss {
				k.Op(1)
				if err := os.WriteFile(filepath.Join(cd, config.ConfigFileName), s, 0o600); err != nil {
					panic(err)
				}
				got, err := config.Load(cd)
				if err != nil || p24canon(got) != old && p24canon(got) != want {
					k.Fail("crash", "a crash %s leaves %q, loaded as %v (%v)", when, s, got, err)
				}
			}
		}
		n := 0
		injected := errors.New("injected fault")
		last := ""
		shim.SetFS(func(o shim.FSOp) error {
			if !strings.HasPrefix(o.Path, d) {
				return nil
			}
			if fail < 0 {
				check(fmt.Sprintf("before file operation %d (%s)", n, o.Kind))
			}
			n++
			if n-1 == fail {
				last = o.Kind
				return injected
			}
			switch o.Kind {
			case "create", "create-trunc":
				fresh[o.Path] = true
			case "sync":
				durable[o.Path], _ = os.ReadFile(o.Path)
			case "rename":
				if v, ok := durable[o.Path]; ok {
					durable[o.To] = v
				} else {
					delete(durable, o.To)
				}
			}
			return nil
		})
		err := confs[b].Save(f)
		shim.SetFS(nil)
		k.Op(1)
		check(fmt.Sprintf("after Save (fault at %d)", fail))
		got, lerr := config.Load(d)
		if lerr != nil {
			k.Fail("fault", "after a fault in operation %d (%s): %v", fail, last, lerr)
		} else if c := p24canon(got); err == nil && c != want {
			k.Fail("fault", "Save succeeds with a fault in operation %d (%s) and has not replaced the file", fail, last)
		} else if err != nil && c != old && last != "remove" {
			k.Fail("fault", "Save fails with a fault in operation %d (%s) and has replaced the file", fail, last)
		}
		switch {
		case fail < 0 && err != nil:
			k.Fail("save", "Save: %v", err)
		case fail >= 0 && err == nil && last != "remove" && last != "":
			k.Fail("fault", "Save reports success with a fault in operation %d (%s)", fail, last)
		}
		if last != "remove" {
			es, _ := os.ReadDir(d)
			for _, e := range es {
				if e.Name() != config.ConfigFileName {
					k.Fail("leftover", "Save leaves %s (fault at %d %s)", e.Name(), fail, last)
				}
			}
		}
		k.State(fmt.Sprint(a, b, fail, last, err != nil))
		if fail < 0 {
			total = n
		}
		os.RemoveAll(d)
		os.RemoveAll(cd)
		if k.Failed() {
			return
		}
	}
}

// p24want is an independent reading of a configuration: what is served, or nil if it has to be refused.
type p24lun struct {
	dev   uint64
	size  uint64
	shift uint
	thin  bool
}

func p24size(path string, mem map[string]uint64) (uint64, bool) {
	kind, arg, ok := strings.Cut(path, ":")
	if !ok {
		return 0, false
	}
	switch kind {
	case "vmem":
		n, ok := mem[arg]
		return n, ok
	case "null":
		return 0, true
	case "file":
		if fi, err := os.Stat(arg); err == nil && fi.Mode().IsRegular() {
			return uint64(fi.Size()), true
		}
	}
	return 0, false
}

func p24luns(cf *config.Config, mem map[string]uint64) (map[string]map[uint64]p24lun, string) {
	dev := map[uint64]p24lun{}
	for _, s := range cf.Storages {
		if _, ok := dev[s.DeviceID]; ok {
			return nil, "duplicate device"
		}
		n, ok := p24size(s.Path, mem)
		if !ok {
			return nil, "storage " + s.Path
		}
		sh := s.BlockShift
		if sh == 0 {
			sh = 9
		}
		dev[s.DeviceID] = p24lun{s.DeviceID, n, sh, s.ThinProvisioning}
	}
	out := map[string]map[uint64]p24lun{}
	for name, t := range cf.ISCSITargets {
		out[name] = map[uint64]p24lun{}
		for l, d := range t.LUNs {
			n, err := strconv.ParseUint(l, 10, 64)
			if err != nil || n > 16383 {
				return nil, "LUN " + l
			}
			x, ok := dev[d]
			if !ok {
				return nil, fmt.Sprintf("LUN %s on no device", l)
			}
			if _, ok := out[name][n]; ok {
				return nil, "LUN twice"
			}
			out[name][n] = x
		}
	}
	return out, ""
}

func p24tpgts(cf *config.Config, name string) (map[uint16][]string, string) {
	out := map[uint16][]string{}
	for s, ids := range cf.ISCSITargets[name].TPGTs {
		n, err := strconv.ParseUint(s, 10, 16)
		if err != nil {
			return nil, "tag " + s
		}
		if _, ok := out[uint16(n)]; ok {
			return nil, "tag twice"
		}
		out[uint16(n)] = []string{}
		for _, id := range ids {
			found := false
			for _, p := range cf.ISCSIPortals {
				if uint64(p.ID) == id {
					found = true
					have := false
					for _, x := range out[uint16(n)] {
						have = have || x == p.Portal
					}
					if !have {
						out[uint16(n)] = append(out[uint16(n)], p.Portal)
					}
				}
			}
			if !found {
				return nil, fmt.Sprintf("portal %d", id)
			}
		}
	}
	return out, ""
}

// p24serve brings the service up and compares it with the configuration.
func p24serve(k *Case, cf *config.Config, mem map[string]uint64, deep bool) {
	for n, b := range mem {
		m := h.NewMem(n, int(b))
		defer m.Drop()
	}
	before := p24canon(cf)
	w, err, newErr := h.FromConfig(cf)
	defer w.End()
	defer h.DropConfig(cf)
	k.Op(1)
	luns, why := p24luns(cf, mem)
	if (err != nil) != (luns == nil) {
		k.Fail("accepts", "%s: InitSCSILUMap says %v, expected a refusal for %q", before, err, why)
	}
	if err != nil || luns == nil {
		k.State("refused " + why)
		return
	}
	var served []string
	for name := range cf.ISCSITargets {
		pg, why := p24tpgts(cf, name)
		if (newErr[name] != nil) != (pg == nil) {
			k.Fail("accepts", "%s: NewTarget says %v, expected a refusal for %q", before, newErr[name], why)
			return
		}
		if pg != nil {
			served = append(served, name)
		}
	}
	sort.Strings(served)
	if p24canon(cf) != before {
		k.Fail("changed", "bringing the service up changed the configuration")
	}
	var have []string
	for _, t := range w.Svc.Targets {
		have = append(have, t.Name)
	}
	sort.Strings(have)
	if !reflect.DeepEqual(have, served) {
		k.Fail("targets", "%s: the service has targets %q, the configuration %q", before, have, served)
		return
	}
	k.State(before)
	if w.Returned() {
		k.Fail("run", "the service does not run")
		return
	}
	if !deep {
		return
	}
	addrs := map[string]bool{h.Portal: true}
	for _, name := range served {
		pg, _ := p24tpgts(cf, name)
		for _, ps := range pg {
			for _, p := range ps {
				addrs[p] = true
			}
		}
	}
	// discovery
	i := w.Dial("10.0.0.1:4001", h.Portal)
	if i == nil || !i.LoginDiscovery() {
		k.Fail("discovery", "no discovery session")
		return
	}
	text, prob := sendTargets(i, "SendTargets=All\x00", 1<<20)
	k.Op(1)
	if prob != "" {
		k.Fail("discovery", "%s: %s", before, prob)
		return
	}
	got, prob := p15parse(text)
	if prob != "" {
		k.Fail("discovery", "%s: %q: %s", before, text, prob)
		return
	}
	for _, name := range served {
		pg, _ := p24tpgts(cf, name)
		var want []string
		for tag, ps := range pg {
			for _, p := range ps {
				want = append(want, fmt.Sprintf("%s,%d", p, tag))
			}
		}
		sort.Strings(want)
		g := append([]string{}, got[name]...)
		sort.Strings(g)
		if _, ok := got[name]; len(want) > 0 && (!ok || strings.Join(g, " ") != strings.Join(want, " ")) {
			k.Fail("discovery", "%s: target %s is announced at %q, configured at %q", before, name, g, want)
			return
		}
	}
	if len(got) > len(served) {
		k.Fail("discovery", "%s: announced targets %v", before, got)
	}
	// every target through its first portal
	for ti, name := range served {
		pg, _ := p24tpgts(cf, name)
		at := ""
		for _, ps := range pg {
			for _, p := range ps {
				if a, err := netip.ParseAddrPort(p); err == nil && a.Port() == 3260 && (at == "" || p < at) {
					at = p
				}
			}
		}
		if at == "" {
			continue
		}
		i := w.Dial(fmt.Sprintf("10.0.0.1:%d", 5000+ti), at)
		if i == nil || !i.LoginName(name) {
			k.Fail("login", "%s: no login to %s at %s", before, name, at)
			return
		}
		m := map[uint64]int{}
		for l := range luns[name] {
			m[l] = 1
		}
		if g, want := reportLUNs(k, i, 4096), lunList(m); !reflect.DeepEqual(g, want) {
			k.Fail("luns", "%s: target %s has LUNs %v, configured %v", before, name, g, want)
			return
		}
		for _, l := range lunList(m) {
			x, ok := luns[name][l]
			if ok && x.shift >= 9 && x.shift <= 16 && x.size>>x.shift > 0 {
				capacity(k, i, l, x.size>>x.shift, x.shift, x.thin, before)
			} else {
				for _, cdb := range [][]byte{h.ReadCap10(), h.ReadCap16(32), h.Reads[1].CDB(0, 0, 1), h.ModeSense6(0, 8, 0, 255, false)} {
					i.Exec(l, cdb, 4096, true, nil)
				}
				i.Exec(l, h.Writes[1].CDB(0, 0, 1), 512, false, make([]byte, 512))
			}
		}
	}
	k.crashes(w, "crash-service")
}

func p24base(dir string) (*config.Config, map[string]uint64) {
	return &config.Config{
		Storages:     []config.BackendStorage{{DeviceID: 11, Path: "vmem:a", Online: true}, {DeviceID: 12, Path: "vmem:b", Online: true, ThinProvisioning: true, BlockShift: 12}},
		ISCSIPortals: []config.ISCSIPortalInfo{{0, "127.0.0.1:3260"}, {1, "127.0.0.2:3260"}},
		ISCSITargets: map[string]config.ISCSITarget{
			"iqn.v:x": {TPGTs: map[string][]uint64{"1": {0, 1}}, LUNs: map[string]uint64{"0": 11, "1": 12}},
			"iqn.v:y": {TPGTs: map[string][]uint64{"1": {1}, "2": {0}}, LUNs: map[string]uint64{"3": 12}},
		},
	}, map[string]uint64{"a": 8 << 9, "b": 4 << 12}
}

// p24edits loads every prefix and every one-byte change of a file.
func p24edits(c *Ctx) {
	base, mem := p24base("")
	data, err := json.MarshalIndent(base, "", " ")
	if err != nil {
		panic(err)
	}
	load := func(k *Case, b []byte) {
		d := p24dir(k)
		defer os.RemoveAll(d)
		if err := os.WriteFile(filepath.Join(d, config.ConfigFileName), b, 0o600); err != nil {
			panic(err)
		}
		want := &config.Config{ISCSITargets: map[string]config.ISCSITarget{}}
		werr := json.NewDecoder(bytes.NewReader(b)).Decode(want)
		got, err := config.Load(d)
		k.Op(1)
		if (err != nil) != (werr != nil) {
			k.Fail("load", "%q is loaded as %v (%v), expected %v", b, got, err, werr)
			return
		}
		if err != nil {
			k.State("refused")
			return
		}
		if p24canon(got) != p24canon(want) {
			k.Fail("load", "%q is loaded as %s, expected %s", b, p24canon(got), p24canon(want))
			return
		}
		p24serve(k, got, mem, true)
	}
	// the names are those of the documentation
	c.Case("names", func(k *Case) {
		d := p24dir(k)
		defer os.RemoveAll(d)
		doc := `{
	"storages": [
		{"deviceID": 11, "path": "vmem:a", "online": true},
		{"deviceID": 12, "path": "vmem:b", "online": false, "thinProvisioning": true, "blockShift": 12}
	],
	"iscsiportals": [{"id": 0, "portal": "127.0.0.1:3260"}, {"id": 300, "portal": "127.0.0.2:3260"}],
	"iscsitargets": {"iqn.v:x": {"tpgts": {"1": [0, 300]}, "luns": {"1": 12, "0": 11}}}
}`
		want := &config.Config{
			Storages:     []config.BackendStorage{{DeviceID: 11, Path: "vmem:a", Online: true}, {DeviceID: 12, Path: "vmem:b", ThinProvisioning: true, BlockShift: 12}},
			ISCSIPortals: []config.ISCSIPortalInfo{{0, "127.0.0.1:3260"}, {300, "127.0.0.2:3260"}},
			ISCSITargets: map[string]config.ISCSITarget{"iqn.v:x": {TPGTs: map[string][]uint64{"1": {0, 300}}, LUNs: map[string]uint64{"0": 11, "1": 12}}},
		}
		f := filepath.Join(d, config.ConfigFileName)
		if err := os.WriteFile(f, []byte(doc), 0o600); err != nil {
			panic(err)
		}
		got, err := config.Load(d)
		k.Op(1)
		if err != nil || !reflect.DeepEqual(got, want) {
			k.Fail("names", "%s is loaded as %+v (%v)", doc, got, err)
			return
		}
		p24serve(k, got, mem, true)
		if err := want.Save(f); err != nil {
			k.Fail("save", "%v", err)
			return
		}
		var a, b any
		saved, _ := os.ReadFile(f)
		json.Unmarshal([]byte(doc), &a)
		if err := json.Unmarshal(saved, &b); err != nil {
			k.Fail("names", "saved as %s: %v", saved, err)
		}
		// a name left out stands for its zero value
		var zero func(v any) any
		zero = func(v any) any {
			switch x := v.(type) {
			case map[string]any:
				for n, y := range x {
					if y = zero(y); y == nil || y == 0.0 && n != "0" && n != "id" || y == false {
						delete(x, n)
					} else {
						x[n] = y
					}
				}
			case []any:
				for n := range x {
					x[n] = zero(x[n])
				}
			}
			return v
		}
		if !reflect.DeepEqual(zero(a), zero(b)) {
			k.Fail("names", "%s is saved as %s", doc, saved)
		}
	})
	// the path of a storage may hold anything
	for n, p := range []string{"a", "a:b", ":a", "file:x", "a b", "ü%20", "a,b"} {
		c.Case(fmt.Sprintf("path/%d", n), func(k *Case) {
			d := p24dir(k)
			defer os.RemoveAll(d)
			for _, x := range []string{"decoy", strings.SplitN(p, ":", 2)[0], p} {
				if x != "" {
					os.WriteFile(filepath.Join(d, x), make([]byte, 512*map[bool]int{true: 8, false: 4}[x == p]), 0o600)
				}
			}
			cf, mem := p24base("")
			cf.Storages[0].Path = "file:" + filepath.Join(d, p)
			if err := cf.Save(filepath.Join(d, config.ConfigFileName)); err != nil {
				k.Fail("save", "%v", err)
				return
			}
			got, err := config.Load(d)
			if err != nil {
				k.Fail("load", "%v", err)
				return
			}
			p24serve(k, got, mem, true)
		})
	}
	c.Case("edit/none", func(k *Case) { load(k, data) })
	for n := 0; n < len(data); n++ {
		c.Case(fmt.Sprintf("prefix/%d", n), func(k *Case) { load(k, data[:n]) })
		for _, r := range []byte(Pick(c, "0\"x}", "0129\"x-:,{}[] \x00\xff")) {
			if r == data[n] {
				continue
			}
			c.Case(fmt.Sprintf("change/%d/%d", n, r), func(k *Case) {
				b := append([]byte{}, data...)
				b[n] = r
				load(k, b)
			})
		}
		c.Case(fmt.Sprintf("drop/%d", n), func(k *Case) { load(k, append(append([]byte{}, data[:n]...), data[n+1:]...)) })
	}
}

// p24bad brings services up from configurations with one or two things wrong or unusual.
func p24bad(c *Ctx) {
	type edit struct {
		name string
		f    func(*config.Config)
	}
	var es []edit
	add := func(n string, f func(*config.Config)) { es = append(es, edit{n, f}) }
	for _, p := range []string{"", "vmem", "vmem:", "vmem:zz", "nosuch:a", "file:/nonexistent/verif/x", "null:", "VMEM:a", ":", "file:"} {
		add("path "+p, func(cf *config.Config) { cf.Storages[0].Path = p })
	}
	for _, s := range []uint{1, 8, 9, 10, 16, 31, 32, 33, 63, 64, 65, math.MaxUint} {
		add(fmt.Sprint("shift ", s), func(cf *config.Config) { cf.Storages[1].BlockShift = s })
	}
	add("same device", func(cf *config.Config) { cf.Storages[1].DeviceID = 11 })
	add("device 0", func(cf *config.Config) {
		cf.Storages[1].DeviceID = 0
		cf.ISCSITargets["iqn.v:x"].LUNs["1"] = 0
		cf.ISCSITargets["iqn.v:y"].LUNs["3"] = 0
	})
	add("no storages", func(cf *config.Config) { cf.Storages = nil })
	add("no portals", func(cf *config.Config) { cf.ISCSIPortals = nil })
	add("no targets", func(cf *config.Config) { cf.ISCSITargets = nil })
	add("two portals of one id", func(cf *config.Config) { cf.ISCSIPortals[1].ID = 0 })
	add("one portal twice", func(cf *config.Config) { cf.ISCSIPortals[1].Portal = cf.ISCSIPortals[0].Portal })
	for _, l := range []string{"", "x", "-1", "01", "1", " 1", "0x1", "010", "0b1", "1_0", "0o7", "255", "256", "16383", "16384", "65536", "18446744073709551615", "18446744073709551616"} {
		add("lun "+l, func(cf *config.Config) { cf.ISCSITargets["iqn.v:x"].LUNs[l] = 11 })
	}
	add("lun without device", func(cf *config.Config) { cf.ISCSITargets["iqn.v:x"].LUNs["1"] = 99 })
	add("no luns", func(cf *config.Config) {
		t := cf.ISCSITargets["iqn.v:x"]
		t.LUNs = nil
		cf.ISCSITargets["iqn.v:x"] = t
	})
	for _, g := range []string{"", "x", "-1", "0", "01", "2", "256", "65535", "65536", "65537", "4294967297", " 1", "010", "0x3"} {
		add("group "+g, func(cf *config.Config) { cf.ISCSITargets["iqn.v:x"].TPGTs[g] = []uint64{0} })
	}
	for _, id := range []uint64{2, 65536, 65537, math.MaxUint64} {
		add(fmt.Sprint("portal ", id), func(cf *config.Config) { cf.ISCSITargets["iqn.v:x"].TPGTs["1"] = []uint64{0, id} })
	}
	add("no groups", func(cf *config.Config) { clear(cf.ISCSITargets["iqn.v:x"].TPGTs) })
	add("empty group", func(cf *config.Config) { cf.ISCSITargets["iqn.v:x"].TPGTs["1"] = nil })
	run := func(k *Case, fs ...func(*config.Config)) {
		cf, mem := p24base("")
		for _, f := range fs {
			func() {
				defer func() { recover() }() // the second edit has nothing to change
				f(cf)
			}()
		}
		p24serve(k, cf, mem, true)
		if k.Failed() {
			return
		}
		// what was refused is gone: the good configuration still comes up
		cf, mem = p24base("")
		p24serve(k, cf, mem, false)
		// and a refused target can be added once it is right
		func() {
			for n, b := range mem {
				m := h.NewMem(n, int(b))
				defer m.Drop()
			}
			bad, _ := p24base("")
			for _, f := range fs {
				func() {
					defer func() { recover() }()
					f(bad)
				}()
			}
			w, err, newErr := h.FromConfig(bad)
			defer w.End()
			defer h.DropConfig(bad)
			if err != nil || len(newErr) == 0 {
				return
			}
			good, _ := p24base("")
			for n := range newErr {
				if _, ok := good.ISCSITargets[n]; !ok {
					continue
				}
				if err := w.Drv.NewTarget(n, good); err != nil {
					k.Fail("retry", "target %s, once refused with %v, is refused with a right configuration: %v", n, newErr[n], err)
				}
			}
			if len(w.Svc.Targets) != len(good.ISCSITargets) && bad.ISCSITargets != nil {
				k.Fail("retry", "%d targets", len(w.Svc.Targets))
			}
		}()
	}

	for x := range es {
		c.Case("bad/"+es[x].name, func(k *Case) { run(k, es[x].f) })
		for y := range es {
			if y == x {
				continue
			}
			if c.Thorough() || (x*len(es)+y)%8 == 0 {
				c.Case("bad/"+es[x].name+"/"+es[y].name, func(k *Case) { run(k, es[x].f, es[y].f) })
			}
		}
	}
}
