package checks

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"os"
	"sort"
	"strings"

	"github.com/gostor/gotgt/cmd"
	"github.com/gostor/gotgt/pkg/api"
	"github.com/gostor/gotgt/pkg/api/client"
	"github.com/gostor/gotgt/pkg/apiserver"
	"github.com/gostor/gotgt/pkg/config"
	"github.com/gostor/gotgt/pkg/version"

	"verifmc/h"
	"verifmc/shim"
)

func init() {
	reg("P30", "model_checking",
		"every history up to the depth of logins, logouts, lost connections, reinstatements, refused and unfinished logins, discovery sessions and new targets, with the list asked for over HTTP after each step; every method and path; every form of version prefix and of the name query; the client library and the command line; oracle: the set of configured targets and of sessions; a state is what the list says",
		p30)
}

const apiAddr = "127.0.0.1:23457"

// listed is a target as the list has to show it.
type listed struct {
	tpgts []uint16
	sess  map[string]bool // initiator/ISID
}

type apiWorld struct {
	k     *Case
	w     *h.World
	srv   *apiserver.Server
	wait  chan error
	hc    *http.Client
	want  map[string]*listed
	nexus map[string]string // session -> nexus id
}

func apiStart(k *Case, c h.Cfg) *apiWorld {
	c.Single = true
	a := &apiWorld{k: k, w: h.NewWorld(c), want: map[string]*listed{}, nexus: map[string]string{}, wait: make(chan error, 1)}
	for ti, n := range a.w.Names {
		l := &listed{sess: map[string]bool{}}
		ports := c.Targets[ti].Portals
		if ports == nil {
			ports = map[uint16][]string{1: nil}
		}
		for tag := range ports {
			l.tpgts = append(l.tpgts, tag)
		}
		a.want[n] = l
	}
	var err error
	if a.srv, err = apiserver.New(&apiserver.Config{Addrs: []apiserver.Addr{{Proto: "tcp", Addr: apiAddr}}}); err != nil {
		k.Fail("start", "the management interface does not start: %v", err)
		return nil
	}
	a.srv.InitRouters()
	go a.srv.Wait(a.wait)
	h.Settle()
	tr := &http.Transport{}
	shim.ConfigureTransport(tr, "tcp", apiAddr)
	a.hc = &http.Client{Transport: tr}
	return a
}

func (a *apiWorld) end() {
	a.hc.CloseIdleConnections()
	a.srv.Close()
	a.w.End()
}

// ask sends a request and returns status and body.
func (a *apiWorld) ask(method, path string) (int, []byte, string) {
	a.k.Op(1)
	req, err := http.NewRequest(method, "http://"+apiAddr+path, nil)
	if err != nil {
		return 0, nil, err.Error()
	}
	resp, err := a.hc.Do(req)
	if err != nil {
		return 0, nil, err.Error()
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		return 0, nil, err.Error()
	}
	return resp.StatusCode, b, ""
}

// check compares a list with the targets it has to show.
func (a *apiWorld) check(what string, body []byte, names ...string) bool {
	var l []struct {
		Name string `json:"name"`
		TPG  []struct {
			Ports []struct {
				RelativeTargetPortID uint16
				TargetPortName       string
			} `json:"targetportgroup"`
		} `json:"tpg"`
		Nexus map[string]struct {
			ID  string `json:"id"`
			Tag string
		} `json:"itnexus"`
	}
	bad := func(key, f string, v ...any) bool {
		a.k.Fail(key, "%s: %s", what, fmt.Sprintf(f, v...))
		return false
	}
	d := json.NewDecoder(bytes.NewReader(body))
	if err := d.Decode(&l); err != nil || l == nil {
		return bad("json", "the answer is no JSON array: %v: %.200q", err, body)
	}
	if _, err := d.Token(); err != io.EOF {
		return bad("json", "something follows the JSON array: %.200q", body)
	}
	if len(l) != len(names) {
		return bad("targets", "%d targets listed, want %v: %.300s", len(l), names, body)
	}
	ids := map[string]bool{}
	for _, n := range names {
		found := false
		for _, t := range l {
			if t.Name != n {
				continue
			}
			if found {
				return bad("targets", "target %s listed twice", n)
			}
			found = true
			w := a.want[n]
			var tags []int
			for _, g := range t.TPG {
				for _, p := range g.Ports {
					tags = append(tags, int(p.RelativeTargetPortID))
					if p.TargetPortName != fmt.Sprintf("%s,t,0x%02x", n, p.RelativeTargetPortID) {
						return bad("ports", "port %d of %s is named %q", p.RelativeTargetPortID, n, p.TargetPortName)
					}
				}
			}
			sort.Ints(tags)
			var wt []int
			for _, g := range w.tpgts {
				wt = append(wt, int(g))
			}
			sort.Ints(wt)
			if fmt.Sprint(tags) != fmt.Sprint(wt) {
				return bad("ports", "%s has the portal groups %v, want %v", n, tags, wt)
			}
			if len(t.Nexus) != len(w.sess) {
				return bad("sessions", "%s has %d sessions listed, want %d", n, len(t.Nexus), len(w.sess))
			}
			for id, x := range t.Nexus {
				if id != x.ID || ids[id] {
					return bad("nexus-id", "nexus %s is listed as %s, or twice", x.ID, id)
				}
				ids[id] = true
				var who []string
				for s := range w.sess {
					ini, isid, _ := strings.Cut(s, "/")
					tag, ok := strings.CutPrefix(x.Tag, ini+"i0x")
					if ok && strings.HasPrefix(strings.TrimLeft(tag, " 0"), strings.TrimLeft(isid, "0")+",") && strings.Contains(tag, n) {
						who = append(who, s)
					}
				}
				if len(who) != 1 {
					return bad("nexus", "nexus %q of %s names none of its sessions %v", x.Tag, n, w.sess)
				}
				if old := a.nexus[n+who[0]]; old != "" && old != id {
					return bad("nexus-id", "the nexus id of %s changed from %s to %s", who[0], old, id)
				}
				a.nexus[n+who[0]] = id
			}
		}
		if !found {
			return bad("targets", "target %s is not listed: %.300s", n, body)
		}
	}
	return true
}

func (a *apiWorld) names() (l []string) {
	for n := range a.want {
		l = append(l, n)
	}
	sort.Strings(l)
	return
}

// list asks for the list and checks it.
func (a *apiWorld) list(what, path string, names ...string) bool {
	st, b, e := a.ask("GET", path)
	if e != "" || st != 200 {
		a.k.Fail("status", "%s: GET %s: status %d %s: %.100q", what, path, st, e, b)
		return false
	}
	return a.check(what, b, names...)
}

type apiIni struct {
	i   *h.Ini
	t   string
	key string
}

// who is an initiator of the histories.
type who struct {
	n    int
	isid uint64
	ti   int
}

func (a *apiWorld) dial(x who) *h.Ini {
	i := a.w.Dial(fmt.Sprintf("10.0.0.%d:4000", x.n+1), h.Portal)
	if i != nil {
		i.Name = fmt.Sprintf("iqn.2020-01.verif:ini%d", x.n)
		i.ISID = x.isid
	}
	return i
}

func (x who) key() string { return fmt.Sprintf("iqn.2020-01.verif:ini%d/%012x", x.n, x.isid) }

func p30(c *Ctx) {
	whos := []who{{0, 0x800000000001, 0}, {0, 0x800000000002, 0}, {1, 0x800000000001, 0}, {0, 0x800000000001, 1}}
	var steps []string
	for n := range whos {
		steps = append(steps, fmt.Sprint("login", n), fmt.Sprint("logout", n), fmt.Sprint("close", n))
	}
	steps = append(steps, "reset0", "discovery", "unknown", "half", "denied", "new")
	depth := Pick(c, 4, 5)
	run := func(k *Case, seq []int) bool {
		a := apiStart(k, h.Cfg{Targets: []h.Target{{LUNs: []h.LUN{{Blocks: 4}}}, {LUNs: []h.LUN{{Blocks: 4}}}}})
		if a == nil {
			return false
		}
		defer a.end()
		live := map[int]*h.Ini{}
		what := ""
		if !a.list("at the start", "/target/list", a.names()...) {
			return false
		}
		for _, s := range seq {
			st := steps[s]
			what += st + " "
			n := int(st[len(st)-1] - '0')
			switch {
			case strings.HasPrefix(st, "login"):
				x := whos[n]
				i := a.dial(x)
				if i == nil || !i.Login(x.ti) {
					k.Fail("login", "after %s: cannot log in", what)
					return false
				}
				if live[n] != nil {
					delete(a.nexus, a.w.Names[x.ti]+x.key()) // reinstated: another session
				}
				live[n] = i
				a.want[a.w.Names[x.ti]].sess[x.key()] = true
			case strings.HasPrefix(st, "logout"), strings.HasPrefix(st, "close"), st == "reset0":
				i := live[n]
				if i == nil {
					return true
				}
				if st == "reset0" {
					i.C.Reset()
				} else if strings.HasPrefix(st, "close") {
					i.Close()
				} else {
					p := &h.PDU{}
					p.B[0], p.B[1] = 0x46, 0x80
					p.Put32(16, i.ITT())
					p.Put32(24, i.CmdSN)
					if ps := i.Do(p); len(ps) != 1 || ps[0].Op() != 0x26 || ps[0].B[2] != 0 {
						k.Fail("logout", "after %s: %v", what, ps)
						return false
					}
				}
				h.Settle()
				delete(live, n)
				x := whos[n]
				delete(a.want[a.w.Names[x.ti]].sess, x.key())
				delete(a.nexus, a.w.Names[x.ti]+x.key())
			case st == "discovery":
				if i := a.dial(who{2, 0x800000000005, 0}); i == nil || !i.LoginDiscovery() {
					k.Fail("login", "after %s: no discovery session", what)
					return false
				}
			case st == "unknown":
				if i := a.dial(who{2, 0x800000000006, 0}); i == nil || i.LoginName(a.w.Names[0]+"x") {
					k.Fail("login", "after %s: a login to an unknown target", what)
					return false
				}
			case st == "half":
				i := a.dial(who{2, 0x800000000007, 0})
				ps := i.Do(h.LoginPDU(i.ISID, 0, 0, 0, 1, true, i.ITT(), 1, 1, h.KV("InitiatorName", i.Name, "SessionType", "Normal", "TargetName", a.w.Names[0], "AuthMethod", "None")))
				if len(ps) != 1 || ps[0].B[36] != 0 {
					k.Fail("login", "after %s: %v", what, ps)
					return false
				}
			case st == "denied":
				// a session that does not exist
				i := a.dial(who{2, 0x800000000008, 0})
				i.TSIH = 0x7777
				if i.Login(0) {
					k.Fail("login", "after %s: a login into a session that is not there", what)
					return false
				}
			case st == "new":
				n := fmt.Sprintf("%s.n%d", a.w.Names[0], len(a.w.Names))
				a.w.Names = append(a.w.Names, n)
				a.w.Conf.ISCSITargets[n] = config.ISCSITarget{TPGTs: map[string][]uint64{"1": {0}}, LUNs: map[string]uint64{}}
				if err := a.w.Drv.NewTarget(n, a.w.Conf); err != nil {
					k.Fail("new", "after %s: NewTarget: %v", what, err)
					return false
				}
				a.want[n] = &listed{tpgts: []uint16{1}, sess: map[string]bool{}}
			}
			if !a.list("after "+what, "/target/list", a.names()...) {
				return false
			}
			state := ""
			for _, n := range a.names() {
				state += fmt.Sprint(len(a.want[n].sess), " ")
			}
			k.State(state)
		}
		return !k.crashes(a.w, "crash")
	}
	for x := range steps {
		for y := range steps {
			c.Case(fmt.Sprintf("hist/%s-%s", steps[x], steps[y]), func(k *Case) {
				var rec func(seq []int) bool
				rec = func(seq []int) bool {
					if len(seq) == depth {
						return run(k, seq)
					}
					for n := range steps {
						if !rec(append(seq[:len(seq):len(seq)], n)) {
							return false
						}
					}
					return true
				}
				rec([]int{x, y})
			})
		}
	}
	// every set of targets and portal groups
	for nt := 0; nt <= 4; nt++ {
		for mask := 1; mask < 16; mask++ {
			c.Case(fmt.Sprintf("config/%d/%x", nt, mask), func(k *Case) {
				cfg := h.Cfg{}
				for t := 0; t < nt; t++ {
					tg := h.Target{Portals: map[uint16][]string{}, LUNs: []h.LUN{{Blocks: 4}}}
					for b, tag := range []uint16{1, 2, 17, 4095} {
						if (mask+t)>>b&1 == 1 {
							tg.Portals[tag] = []string{fmt.Sprintf("127.0.0.%d:3260", b+1)}
						}
					}
					cfg.Targets = append(cfg.Targets, tg)
				}
				a := apiStart(k, cfg)
				if a == nil {
					return
				}
				defer a.end()
				a.list("configuration", "/target/list", a.names()...)
				k.State(fmt.Sprint(nt, mask))
			})
		}
	}
	// many sessions
	c.Case("many", func(k *Case) {
		a := apiStart(k, h.Cfg{Targets: []h.Target{{LUNs: []h.LUN{{Blocks: 4}}}, {LUNs: []h.LUN{{Blocks: 4}}}}})
		if a == nil {
			return
		}
		defer a.end()
		live := map[who]*h.Ini{}
		var all []who
		for n := 0; n < Pick(c, 96, 400); n++ {
			x := who{n % 7, []uint64{0x800000000001, 0x800000000000, 1, 0x400000000001, 0x800000010001, 0xffffffffffff, 0x7fffffffffff}[n/7%7] ^ uint64(n/49)<<16, n & 1}
			i := a.dial(x)
			if i == nil || !i.Login(x.ti) {
				k.Fail("login", "login %d is refused", n)
				return
			}
			live[x] = i
			all = append(all, x)
			a.want[a.w.Names[x.ti]].sess[x.key()] = true
			if !a.list(fmt.Sprint("session ", n), "/target/list", a.names()...) {
				return
			}
		}
		for _, x := range all {
			live[x].Close()
			h.Settle()
			delete(a.want[a.w.Names[x.ti]].sess, x.key())
			if !a.list("fewer sessions", "/target/list", a.names()...) {
				return
			}
		}
		k.crashes(a.w, "crash")
	})
	session := func(k *Case) *apiWorld {
		a := apiStart(k, h.Cfg{Targets: []h.Target{{Name: "a", LUNs: []h.LUN{{Blocks: 4}}}, {Name: "ab", LUNs: []h.LUN{{Blocks: 4}}}, {Name: "b%20c", LUNs: []h.LUN{{Blocks: 4}}}}})
		if a == nil {
			return nil
		}
		for _, x := range []who{{0, 0x800000000001, 1}, {1, 0x800000000001, 1}, {1, 0x800000000002, 0}} {
			i := a.dial(x)
			if i == nil || !i.Login(x.ti) {
				k.Fail("login", "cannot log in")
				a.end()
				return nil
			}
			a.want[a.w.Names[x.ti]].sess[x.key()] = true
		}
		return a
	}
	// every version prefix and name query
	versions := []string{"", "v1", "v1.0", "v0.2.1", "v0.2.1-dirty", "v0.2.1-3-gabcdef1", "vabcdef1", "vNot%20provided.", "v1alpha1"}
	for _, v := range versions {
		c.Case("version/"+v, func(k *Case) {
			a := session(k)
			if a == nil {
				return
			}
			defer a.end()
			path := "/target/list"
			if v != "" {
				path = "/" + v + path
			}
			if !a.list("list", path, a.names()...) {
				return
			}
			for _, n := range a.w.Names {
				if !a.list("list by name", path+"?name="+strings.ReplaceAll(n, "%", "%25"), n) {
					return
				}
			}
			for _, n := range []string{"x", a.w.Names[0][:5], a.w.Names[0] + "c", strings.ToUpper(a.w.Names[0])} {
				if !a.list("list by the name of no target", path+"?name="+n) {
					return
				}
			}
			a.list("empty name", path+"?name=", a.names()...)
			k.State(v)
		})
	}
	// every method and path
	for _, m := range []string{"GET", "HEAD", "POST", "PUT", "DELETE", "PATCH", "OPTIONS", "TRACE"} {
		c.Case("method/"+m, func(k *Case) {
			a := session(k)
			if a == nil {
				return
			}
			defer a.end()
			for _, p := range []string{"/", "/nothing", "/v1.0", "/v1.0/nothing", "/target", "/target/list", "/v1.0/target/list", "/target/list/", "/target/list/x", "/lists", "/target/create", "/target/up", "/target/" + a.w.Names[0], "/lu/list", "/lu/create", "/discovery", "/discovery/list", "/%00", "/v/target/list", "/" + strings.Repeat("a", 5000), "/target/list?name=%zz", "/target/list?name"} {
				st, b, e := a.ask(m, p)
				if e != "" {
					k.Fail("answer "+m, "%s %s: no answer: %s", m, p, e)
					return
				}
				if unknown := p == "/" || strings.Contains(p, "nothing") || p == "/v1.0" || strings.HasPrefix(p, "/aaa") || p == "/lists"; unknown && st < 400 {
					k.Fail("unknown "+m, "%s %s: status %d: %.100q", m, p, st, b)
					return
				}
				k.State(fmt.Sprint(m, p, st))
				if !a.list("after "+m+" "+p, "/target/list", a.names()...) {
					return
				}
			}
			// the targets still serve
			if i := a.dial(who{3, 0x800000000001, 0}); i == nil || !i.Login(0) {
				k.Fail("login", "cannot log in after %s requests", m)
			}
			k.crashes(a.w, "crash")
		})
	}
	// the client library and the command line
	for _, v := range []string{"", "1.0", "v1.0", "v0.2.1", "v0.2.1-dirty", "v0.2.1-3-gabcdef1", "abcdef1", "Not provided."} {
		c.Case("client/"+v, func(k *Case) {
			a := session(k)
			if a == nil {
				return
			}
			defer a.end()
			cli, err := client.NewClient("tcp://"+apiAddr, v, a.hc, map[string]string{"X-Test": "1"})
			if err != nil {
				k.Fail("client", "%v", err)
				return
			}
			for _, name := range append([]string{"", "x"}, a.w.Names...) {
				want := a.names()
				if name != "" {
					want = nil
					if a.want[name] != nil {
						want = []string{name}
					}
				}
				ts, err := cli.TargetList(context.Background(), api.TargetListOptions{Name: name})
				k.Op(1)
				if err != nil {
					k.Fail("client", "version %q, name %q: %v", v, name, err)
					return
				}
				b, _ := json.Marshal(ts)
				if ts == nil {
					b = []byte("[]")
				}
				if !a.check("client library", b, want...) {
					return
				}
				k.State(v + name)
			}
			a.srv.Close()
			a.hc.CloseIdleConnections()
			h.Settle()
			if _, err := cli.TargetList(context.Background(), api.TargetListOptions{}); err != client.ErrConnectionFailed {
				k.Fail("closed", "the management interface is closed and the client says %v", err)
			}
			select {
			case err := <-a.wait:
				if err != nil {
					k.Fail("closed", "closing the management interface: %v", err)
				}
			default:
				k.Fail("closed", "the management interface is closed and still serves")
			}
			k.crashes(a.w, "crash")
		})
		c.Case("command/"+v, func(k *Case) {
			a := session(k)
			if a == nil {
				return
			}
			defer a.end()
			old := version.Version
			version.Version = v
			defer func() { version.Version = old }()
			for _, args := range [][]string{{}, {"--host", "tcp://" + apiAddr}, {"--name", a.w.Names[1]}, {"--name", a.w.Names[2]}, {"--name", "x"}, {"--verbose"}} {
				want := map[string]string{}
				for n, l := range a.want {
					if len(args) < 2 || args[0] != "--name" || args[1] == n {
						want[n] = fmt.Sprint(len(l.sess))
					}
				}
				out, err := command(append([]string{"list", "target"}, args...)...)
				k.Op(1)
				if err != nil {
					k.Fail("command", "version %q: gotgt list target %v: %v", v, args, err)
					return
				}
				lines := strings.Split(strings.TrimRight(out, "\n"), "\n")
				got := map[string]string{}
				for _, l := range lines[1:] {
					f := strings.Fields(l)
					if len(f) != 3 {
						k.Fail("command", "gotgt list target %v printed %q", args, l)
						return
					}
					got[f[0]] = f[2]
				}
				if fmt.Sprint(got) != fmt.Sprint(want) || len(lines)-1 != len(want) {
					k.Fail("command", "gotgt list target %v printed\n%swant %v", args, out, want)
					return
				}
			}
			k.crashes(a.w, "crash")
		})
	}
}

// command runs the gotgt command line and returns what it prints.
func command(args ...string) (string, error) {
	r, w, err := os.Pipe()
	if err != nil {
		return "", err
	}
	old := os.Stdout
	os.Stdout = w
	root := cmd.NewCommand()
	root.SetArgs(args)
	root.SilenceUsage, root.SilenceErrors = true, true
	err = root.Execute()
	os.Stdout = old
	w.Close()
	b, _ := io.ReadAll(r)
	r.Close()
	return string(b), err
}
