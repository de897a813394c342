package checks

import (
	"fmt"
	"strconv"
	"strings"

	"verifmc/h"
)

func init() {
	reg("P12", "model_checking",
		"every sequence up to the depth of login steps (security and operational, final or not, valid, refused, unknown target, missing name, wrong session handle) and of every request type on a fresh connection, next to an established session; oracle: no request is executed before this connection's login completed, completed and refused logins are told apart, a refused login closes the connection, discovery sessions execute no SCSI command; a state is (login phase, last answer)",
		p12)
	reg("P13", "model_checking",
		"every negotiable key x every value class (boundaries, lists, malformed), all pairs of keys, in one or two login requests, with or without a security stage, x map orders; oracle: the RFC 7143 result function per key, each offered key answered exactly once, declarations made once, and what was agreed is what the session then does; a state is (offer, answer)",
		p13)
}

// p12step is one request of the alphabet of P12. want is how a legal login goes on.
type p12step struct {
	name string
	pdu  func(w *h.World, i *h.Ini) *h.PDU
}

func p12steps() []p12step {
	login := func(csg, nsg byte, t bool, tsih uint16, kv func(w *h.World) string) func(*h.World, *h.Ini) *h.PDU {
		return func(w *h.World, i *h.Ini) *h.PDU {
			return h.LoginPDU(i.ISID, tsih, i.CID, csg, nsg, t, i.ITT(), i.CmdSN, i.ExpStat, kv(w))
		}
	}
	id := func(w *h.World) string {
		return h.KV("InitiatorName", "iqn.2020-01.verif:p12", "SessionType", "Normal", "TargetName", w.Names[0])
	}
	none := func(w *h.World) string { return "" }
	ctl := func(op byte, b1 byte) func(*h.World, *h.Ini) *h.PDU {
		return func(w *h.World, i *h.Ini) *h.PDU {
			p := &h.PDU{}
			p.B[0], p.B[1] = op, b1
			p.Put32(16, i.ITT()).Put32(20, 0xffffffff).Put32(24, i.CmdSN).Put32(28, i.ExpStat)
			if op == h.OpText {
				p.Data = []byte("SendTargets=All\x00")
			}
			return p
		}
	}
	return []p12step{
		{"op", login(1, 3, true, 0, id)},
		{"op-", login(1, 3, false, 0, id)},
		{"opcont", login(1, 3, true, 0, none)},
		{"sec", login(0, 1, true, 0, func(w *h.World) string { return id(w) + h.KV("AuthMethod", "CHAP,None") })},
		{"sec3", login(0, 3, true, 0, func(w *h.World) string { return id(w) + h.KV("AuthMethod", "None") })},
		{"chap", login(0, 1, true, 0, func(w *h.World) string { return id(w) + h.KV("AuthMethod", "CHAP") })},
		{"krb", login(0, 1, true, 0, func(w *h.World) string { return id(w) + h.KV("AuthMethod", "KRB5,CHAP") })},
		{"nsg1", login(1, 1, true, 0, id)},
		{"ffp", login(3, 3, true, 0, id)},
		{"unknown", login(1, 3, true, 0, func(w *h.World) string {
			return h.KV("InitiatorName", "iqn.2020-01.verif:p12", "SessionType", "Normal", "TargetName", "iqn.2020-01.verif:nobody")
		})},
		{"prefix", login(1, 3, true, 0, func(w *h.World) string {
			return h.KV("InitiatorName", "iqn.2020-01.verif:p12", "SessionType", "Normal", "TargetName", w.Names[0][:len(w.Names[0])-1])
		})},
		{"notarget", login(1, 3, true, 0, func(w *h.World) string {
			return h.KV("InitiatorName", "iqn.2020-01.verif:p12", "SessionType", "Normal")
		})},
		{"tsih", login(1, 3, true, 77, id)},
		{"disc", login(1, 3, true, 0, func(w *h.World) string {
			return h.KV("InitiatorName", "iqn.2020-01.verif:p12", "SessionType", "Discovery")
		})},
		{"disct", login(1, 3, true, 0, func(w *h.World) string {
			return h.KV("InitiatorName", "iqn.2020-01.verif:p12", "SessionType", "Discovery", "TargetName", w.Names[0])
		})},
		{"sec-", login(0, 1, false, 0, func(w *h.World) string { return id(w) + h.KV("AuthMethod", "None") })},
		{"secdisc", login(0, 1, true, 0, func(w *h.World) string {
			return h.KV("InitiatorName", "iqn.2020-01.verif:p12", "TargetName", w.Names[0], "SessionType", "Discovery", "AuthMethod", "None")
		})},
		{"write", func(w *h.World, i *h.Ini) *h.PDU {
			p := i.CmdPDU(0, h.C10(0x2a, 0, 1, 1), 512, false, true)
			p.Data = h.Fill(512, 0x99)
			return p
		}},
		{"read", func(w *h.World, i *h.Ini) *h.PDU { return i.CmdPDU(0, h.C10(0x28, 0, 1, 1), 512, true, false) }},
		{"wpend", func(w *h.World, i *h.Ini) *h.PDU { return i.CmdPDU(0, h.C10(0x2a, 0, 1, 1), 512, false, true) }},
		{"dout", func(w *h.World, i *h.Ini) *h.PDU { return i.DataOut(0, 1, 0, 0, 0, h.Fill(512, 0x88), true) }},
		{"nop", ctl(h.OpNopOut|0x40, 0x80)},
		{"text", ctl(h.OpText|0x40, 0x80)},
		{"reset", ctl(h.OpTMF|0x40, 0x85)},
		{"snack", ctl(h.OpSNACK, 0x80)},
		{"logout", ctl(h.OpLogout|0x40, 0x80)},
	}
}

func p12(c *Ctx) {
	steps := p12steps()
	for ab := 0; ab < 2*len(steps)*len(steps); ab++ {
		a, b, order := ab/2/len(steps), ab/2%len(steps), ab%2
		{
			c.Case(fmt.Sprintf("%s/%s/%d", steps[a].name, steps[b].name, order), func(k *Case) {
				depth := Pick(c, 3, 4)
				seq := []int{a, b}
				var rec func(seq []int) bool
				rec = func(seq []int) bool {
					if len(seq) == depth {
						return p12run(k, steps, seq, order+1)
					}
					for n := range steps {
						if !rec(append(append([]int{}, seq...), n)) {
							return false
						}
					}
					return true
				}
				rec(seq)
			})
		}
	}
}

func p12run(k *Case, steps []p12step, seq []int, order int) bool {
	cfg := h.Simple(h.LUN{LUN: 0, Blocks: 4})
	cfg.Order = order
	w := h.NewWorld(cfg)
	defer w.End()
	name := ""
	for _, n := range seq {
		name += steps[n].name + " "
	}
	other := w.Session(5, 0)
	i := w.Dial("10.0.0.1:40000", h.Portal)
	if other == nil || i == nil {
		k.Fail("no-session", "cannot connect")
		return false
	}
	med := h.Fill(2048, 0x11)
	w.SetMedium(0, 0, med)
	// a write of the other session is outstanding all the time
	ot := &wtask{i: other, lba: 3, data: h.Fill(512, 0x44)}
	other.Send(ot.next())
	for _, p := range other.Recv() {
		ot.take(p, 1<<18)
	}
	bad := func(key, f string, a ...any) bool {
		k.Fail(key, "%s: %s", name, fmt.Sprintf(f, a...))
		return false
	}
	phase := "start" // start, oper, normal, discovery, closed, and odd: any that neither completes nor fails
	sure := true     // the model knows whether a login may complete
	named := false   // an earlier login request of this connection named the session's target
	for _, n := range seq {
		st := steps[n].name
		first := i.CmdSN
		p := steps[n].pdu(w, i)
		ps := i.Do(p)
		k.Op(1)
		if i.Bad != nil {
			return bad("stream", "%v", i.Bad)
		}
		if phase == "closed" {
			if len(ps) > 0 {
				return bad("closed", "%s after the login failed or the connection ended", ps[0].String())
			}
			continue
		}
		isLogin := p.Op() == h.OpLogin
		full := phase == "normal" || phase == "discovery" || phase == "either"
		var l *h.PDU
		if len(ps) == 1 && ps[0].Op() == h.OpLoginR {
			l = &ps[0]
		}
		switch {
		case isLogin && !full:
			if len(ps) > 1 || len(ps) == 1 && l == nil || len(ps) == 0 && !i.EOF {
				return bad("login-answer "+st, "%v to %s", ps, st)
			}
			done := l != nil && l.B[36] == 0 && l.B[1]&0x83 == 0x83
			failed := l == nil || l.B[36] != 0
			if failed != i.EOF {
				return bad("login-close "+st, "%s: failed %v, closed %v", st, failed, i.EOF)
			}
			if l != nil && (l.ITT() != p.ITT() || string(l.B[8:14]) != string(p.B[8:14])) {
				return bad("login-echo "+st, "%s: %s", st, l.String())
			}
			if l != nil && !failed && l.B[1]&0x80 != 0 && p.B[1]&0x80 == 0 {
				return bad("login-transit "+st, "%s: the target moves on although the initiator did not ask", st)
			}
			tsih := uint16(0)
			if l != nil {
				tsih = uint16(l.B[14])<<8 | uint16(l.B[15])
			}
			switch st {
			case "op", "disc":
				if !done && sure {
					return bad("login-refused "+st, "%v", ps)
				}
			case "op-":
				if sure && (failed || done) {
					return bad("login-step "+st, "%v", ps)
				}
			case "sec":
				if sure && phase == "start" && (failed || done || l.B[1]&0x83 != 0x81) {
					return bad("login-step "+st, "%v", ps)
				}
			case "sec3":
			case "chap", "krb":
				if !failed {
					return bad("login-auth", "an initiator that offers only CHAP got %v", ps)
				}
			case "unknown", "prefix", "notarget":
				// names of an earlier request of the same login stay
				if !failed && !named {
					return bad("login-unknown "+st, "%v", ps)
				}
			case "tsih":
				if phase == "start" && !failed {
					return bad("login-tsih", "a login to session 77 got %v", ps)
				}
			case "opcont":
				if (phase == "start" && sure) && done {
					return bad("login-anonymous", "a login that names nothing got %v", ps)
				}
			}
			if done && tsih == 0 {
				return bad("login-tsih0", "%s completed with TSIH 0", st)
			}
			switch st {
			case "op", "op-", "sec", "sec3", "nsg1", "ffp", "sec-", "secdisc", "disct":
				named = true
			}
			switch {
			case failed:
				phase = "closed"
			case done && (st == "disc" || st == "disct") && phase == "start" && sure:
				phase = "discovery"
			case done && st == "opcont" && phase == "named-discovery":
				phase = "discovery"
			case done && (st == "disc" || st == "disct") || done && phase == "named-discovery":
				phase = "either" // the initiator changed the type in the middle of the login
			case done:
				phase = "normal"
			case st == "op-":
				phase = "oper"
			case st == "sec" && phase == "start":
				phase = "named"
			case st == "secdisc" && phase == "start" && sure:
				phase = "named-discovery"
			case phase == "named-discovery":
				phase, sure = "mixed", false
			case st == "sec":
				sure = false
			default:
				sure = false
			}
		case full && isLogin:
			for _, q := range ps {
				if q.Op() != h.OpReject {
					return bad("relogin "+st, "%v in full feature phase", ps)
				}
			}
			if i.EOF {
				phase = "closed"
			}
		case !full:
			i.CmdSN = first // a request before the login is refused and takes no number
			for _, q := range ps {
				if q.Op() != h.OpReject && !(st == "logout" && q.Op() == h.OpLogoutR) {
					return bad("before-login "+st, "%s before the login completed: %s", st, q.String())
				}
			}
			if i.EOF {
				phase = "closed"
			} else if len(ps) == 0 && st != "dout" && st != "snack" {
				return bad("before-login "+st, "%s before the login completed: no answer", st)
			}
		case phase == "discovery":
			for _, q := range ps {
				switch q.Op() {
				case h.OpResp, h.OpDataIn, h.OpR2T, h.OpTMFResp:
					return bad("discovery "+st, "%s on a discovery session: %s", st, q.String())
				}
			}
			if i.EOF {
				phase = "closed"
			}
		default: // normal session
			if st == "write" || st == "read" {
				if phase == "normal" && (len(ps) != 1 || ps[0].ITT() != p.ITT()) {
					return bad("normal "+st, "%v", ps)
				}
				if st == "write" && len(ps) == 1 && ps[0].Op() == h.OpResp && ps[0].Status() == 0 {
					copy(med[512:], h.Fill(512, 0x99))
				} else if st == "write" && phase == "normal" {
					return bad("normal "+st, "%v", ps)
				}
			}
			if st == "dout" {
				for _, q := range ps {
					if q.Op() == h.OpResp && q.Status() == 0 {
						copy(med[512:], h.Fill(512, 0x88))
					}
				}
			}
			if st == "logout" || i.EOF {
				if !i.EOF {
					return bad("logout", "the connection stays open after logout")
				}
				phase = "closed"
			}
		}
		if !w.Stores["0/0"].Equal(med) {
			return bad("effect "+st, "%s in phase %s changed the medium", st, phase)
		}
		k.State(fmt.Sprint(phase, sure, st, i.EOF, len(ps)))
	}
	// the other session is untouched
	if ot.r2t == nil {
		return bad("other", "the write of the other session has no R2T")
	}
	other.Send(ot.next())
	for _, p := range other.Recv() {
		if e := ot.take(p, 1<<18); e != "" {
			return bad("other", "the other session: %s", e)
		}
	}
	copy(med[3*512:], ot.data)
	r := other.Exec(0, h.C10(0x28, 0, 0, 4), 2048, true, nil)
	if !ot.finished || !r.Good() || string(r.Data) != string(med) {
		return bad("other", "the other session: %v", r)
	}
	return !k.crashes(w, "crash")
}

// p13key is the RFC 7143 rule of a key for this target.
type p13key struct {
	name string
	vals []string
	// ok tells whether ans is a legal answer to offer, per the rule of the key
	ok func(offer, ans string) bool
}

func num(s string) (int, bool) {
	n, err := strconv.Atoi(s)
	return n, err == nil && s == strconv.Itoa(n)
}

func p13keys() []p13key {
	numeric := func(lo, hi int, f func(v int) int) func(o, a string) bool {
		return func(o, a string) bool {
			v, okv := num(o)
			n, okn := num(a)
			if okv && v >= lo && v <= hi {
				return okn && n == f(v)
			}
			if a == "Reject" {
				return true
			}
			return okn && n >= lo && n <= hi // an illegal offer: any legal value of the target's will do
		}
	}
	minOf := func(m int) func(int) int { return func(v int) int { return min(v, m) } }
	boolean := func(f func(bool) bool) func(o, a string) bool {
		yn := map[bool]string{true: "Yes", false: "No"}
		return func(o, a string) bool {
			if o == "Yes" || o == "No" {
				return a == yn[f(o == "Yes")]
			}
			return a == "Reject" || strings.EqualFold(a, o)
		}
	}
	digest := func(o, a string) bool {
		plain, none := true, false
		for _, v := range strings.Split(o, ",") {
			plain = plain && (v == "None" || v == "CRC32C")
			none = none || v == "None"
		}
		switch {
		case plain && none:
			return a == "None"
		case plain:
			return a == "Reject"
		}
		return a == "Reject" || none && a == "None"
	}
	bools := []string{"Yes", "No", "Maybe", "", "1"}
	nums := []string{"0", "1", "2", "3", "511", "512", "513", "1024", "65535", "65536", "65537", "262143", "262144", "262145", "16777215", "16777216", "-1", "x", "", "99999999999999999999", "4294967296"}
	small := []string{"0", "1", "2", "3", "10", "3599", "3600", "3601", "65535", "65536", "-1", "x"}
	return []p13key{
		{"HeaderDigest", []string{"None", "CRC32C", "None,CRC32C", "CRC32C,None", "", "foo", "foo,None"}, digest},
		{"DataDigest", []string{"None", "CRC32C", "None,CRC32C", "CRC32C,None", "", "foo", "foo,None"}, digest},
		{"InitialR2T", bools, boolean(func(bool) bool { return true })},
		{"ImmediateData", bools, boolean(func(b bool) bool { return b })},
		{"MaxBurstLength", nums, numeric(512, 16777215, minOf(262144))},
		{"FirstBurstLength", nums, numeric(512, 16777215, minOf(65536))},
		{"MaxOutstandingR2T", small, numeric(1, 65535, minOf(1))},
		{"MaxConnections", small, numeric(1, 65535, minOf(1))},
		{"DefaultTime2Wait", small, numeric(0, 3600, func(v int) int { return max(v, 2) })},
		{"DefaultTime2Retain", small, func(o, a string) bool {
			v, okv := num(o)
			n, okn := num(a)
			if okv && v >= 0 && v <= 3600 {
				return okn && n <= v
			}
			return a == "Reject" || okn && n >= 0 && n <= 3600
		}},
		{"ErrorRecoveryLevel", []string{"0", "1", "2", "3", "x"}, numeric(0, 2, minOf(0))},
		{"DataPDUInOrder", bools, boolean(func(bool) bool { return true })},
		{"DataSequenceInOrder", bools, boolean(func(bool) bool { return true })},
		{"IFMarker", bools, boolean(func(bool) bool { return false })},
		{"OFMarker", bools, boolean(func(bool) bool { return false })},
		{"X-com.example.foo", []string{"1", "", "Yes"}, func(o, a string) bool { return a == "NotUnderstood" }},
		{"maxburstlength", []string{"1024"}, func(o, a string) bool { return a == "NotUnderstood" }},
	}
}

type kvpair struct{ k, v string }

func p13(c *Ctx) {
	keys := p13keys()
	type offer struct {
		key p13key
		val string
	}
	run := func(id string, offs []offer, mode, order int) {
		c.Case(id, func(k *Case) {
			cfg := h.Simple(h.LUN{LUN: 0, Blocks: 300})
			cfg.Order = order + 1
			w := h.NewWorld(cfg)
			defer w.End()
			i := w.Dial("10.0.0.1:40000", h.Portal)
			if i == nil {
				k.Fail("no-session", "cannot connect")
				return
			}
			idkv := h.KV("InitiatorName", "iqn.2020-01.verif:p13", "SessionType", "Normal", "TargetName", w.Names[0])
			var got []kvpair
			desc := ""
			for _, o := range offs {
				desc += o.key.name + "=" + o.val + " "
			}
			step := func(csg, nsg byte, t bool, kv string) bool {
				for len(kv) > 0 { // declarations of the initiator are not answered
					break
				}
				ps := i.Do(h.LoginPDU(i.ISID, 0, 0, csg, nsg, t, i.ITT(), i.CmdSN, i.ExpStat, kv))
				k.Op(1)
				if len(ps) != 1 || ps[0].Op() != h.OpLoginR || ps[0].B[36] != 0 || (ps[0].B[1]&0x80 != 0) != t || t && ps[0].B[1]&3 != nsg {
					k.Fail("login", "%s (mode %d): %v", desc, mode, ps)
					return false
				}
				for _, s := range strings.Split(string(ps[0].Data), "\x00") {
					if s == "" {
						continue
					}
					key, val, ok := strings.Cut(s, "=")
					if !ok {
						k.Fail("text", "%s: answer %q", desc, s)
					}
					got = append(got, kvpair{key, val})
				}
				return true
			}
			var text []string
			for _, o := range offs {
				text = append(text, h.KV(o.key.name, o.val))
			}
			ok := true
			switch mode {
			case 0:
				ok = step(1, 3, true, idkv+strings.Join(text, ""))
			case 1: // the keys come before the final request
				ok = step(1, 3, false, idkv+strings.Join(text, "")) && step(1, 3, true, "")
			case 2: // one key per request
				ok = step(1, 3, false, idkv+text[0])
				for n := 1; n < len(text) && ok; n++ {
					ok = step(1, 3, false, text[n])
				}
				ok = ok && step(1, 3, true, "")
			case 3: // after a security stage
				ok = step(0, 1, true, idkv+h.KV("AuthMethod", "None"))
				got = nil
				ok = ok && step(1, 3, true, strings.Join(text, ""))
			}
			if !ok {
				return
			}
			res := map[string]string{}
			tpgt, mr := 0, 0
			for _, g := range got {
				switch g.k {
				case "TargetPortalGroupTag":
					if tpgt++; g.v != "1" {
						k.Fail("tpgt", "%s: TargetPortalGroupTag=%s", desc, g.v)
					}
					continue
				case "MaxRecvDataSegmentLength":
					if v, ok := num(g.v); !ok || v < 512 || v > 16777215 {
						k.Fail("mrdsl", "%s: MaxRecvDataSegmentLength=%s", desc, g.v)
					}
					mr++
					continue
				}
				if _, dup := res[g.k]; dup {
					k.Fail("twice", "%s: %s answered twice: %v", desc, g.k, got)
				}
				res[g.k] = g.v
			}
			if mode != 2 && (tpgt == 0 || mode != 1 && (tpgt != 1 || mr != 1)) {
				k.Fail("declare", "%s: %v", desc, got)
			}
			for _, o := range offs {
				a, ok := res[o.key.name]
				if !ok {
					k.Fail("unanswered "+o.key.name, "%s: %v", desc, got)
					continue
				}
				if !o.key.ok(o.val, a) {
					k.Fail("result "+o.key.name, "%s=%s answered with %s", o.key.name, o.val, a)
				}
				delete(res, o.key.name)
			}
			for x := range res {
				k.Fail("unasked", "%s: %s=%s was not offered", desc, x, res[x])
			}
			// the session does what was agreed
			agreed := map[string]string{}
			for _, g := range got {
				agreed[g.k] = g.v
			}
			burst := 262144
			if v, ok := num(agreed["MaxBurstLength"]); ok {
				burst = v
			}
			i.TSIH = 1
			data := h.Fill(1536, 7)
			imm := 512
			if agreed["ImmediateData"] == "No" {
				imm = 0
			}
			t := &wtask{i: i, lba: 1, data: data, imm: imm}
			for t.runnable() {
				i.Send(t.next())
				k.Op(1)
				for _, p := range i.Recv() {
					if e := t.take(p, burst); e != "" {
						k.Fail("use-write", "%s: %s", desc, e)
						return
					}
				}
			}
			want := make([]byte, 300*512)
			copy(want[512:], data)
			r := i.Exec(0, h.C10(0x28, 0, 0, 300), 300*512, true, nil)
			k.Op(1)
			_, e := dataInShape(r, 8192, burst)
			if !r.Good() || r.Problem != "" || e != "" || string(r.Data) != string(want) {
				k.Fail("use-read", "%s: %s %v", desc, e, r)
			}
			k.State(fmt.Sprint(desc, got))
			k.crashes(w, "crash")
		})
	}
	for _, key := range keys {
		for _, v := range key.vals {
			for mode := 0; mode < 4; mode++ {
				for order := 0; order < 3; order++ {
					run(fmt.Sprintf("one/%s=%s/%d/%d", key.name, v, mode, order), []offer{{key, v}}, mode, order)
				}
			}
		}
	}
	for a := range keys {
		for b := range keys {
			if a == b {
				continue
			}
			for x, va := range keys[a].vals {
				for y, vb := range keys[b].vals {
					if !c.Thorough() && (x > 3 || y > 3 || (x+y)%2 == 1) {
						continue
					}
					modes := []int{0, 1, 2, 3}
					if !c.Thorough() {
						modes = []int{(a + b + x + y) % 4}
					}
					for _, m := range modes {
						run(fmt.Sprintf("two/%s=%s/%s=%s/%d", keys[a].name, va, keys[b].name, vb, m), []offer{{keys[a], va}, {keys[b], vb}}, m, (a+x)%4)
					}
				}
			}
		}
	}
	// everything at once, as real initiators do
	var all []offer
	for n, key := range keys {
		all = append(all, offer{key, key.vals[n%2]})
	}
	for order := 0; order < 26; order++ {
		for mode := 0; mode < 4; mode++ {
			run(fmt.Sprintf("all/%d/%d", order, mode), all, mode, order)
		}
	}
	// the initiator's MaxRecvDataSegmentLength is a declaration, not answered
	for _, v := range []string{"512", "516", "1000", "1024", "4096", "8192", "65536", "262144", "16777215"} {
		c.Case("mrdsl/"+v, func(k *Case) {
			w := h.NewWorld(h.Simple(h.LUN{LUN: 0, Blocks: 300}))
			defer w.End()
			i := w.Session(0, 0, "MaxRecvDataSegmentLength", v)
			if i == nil {
				k.Fail("no-session", "cannot log in")
				return
			}
			n := strings.Count(string(i.All[0].Data), "MaxRecvDataSegmentLength=")
			if n != 1 {
				k.Fail("mrdsl", "%q", i.All[0].Data)
			}
			r := i.Exec(0, h.C10(0x28, 0, 0, 300), 300*512, true, nil)
			m, _ := num(v)
			if _, e := dataInShape(r, m, 262144); !r.Good() || e != "" {
				k.Fail("use-read", "%s %v", e, r)
			}
			k.Op(2)
			// ping data is returned as far as the initiator takes it
			for _, l := range []int{0, 1, 3, 4, 5, m - 5, m - 4, m - 1, m, m + 1, m + 2, m + 3, m + 4, m + 5, m + 8, 2 * m, 2*m + 1} {
				if l < 0 || l > 262144 {
					continue
				}
				p := &h.PDU{Data: h.Fill(l, 5)}
				p.B[0], p.B[1] = h.OpNopOut|0x40, 0x80
				p.Put32(16, i.ITT()).Put32(20, 0xffffffff).Put32(24, i.CmdSN).Put32(28, i.ExpStat)
				ps := i.Do(p)
				k.Op(1)
				if len(ps) != 1 || ps[0].Op() != h.OpNopIn || len(ps[0].Data) > m || string(ps[0].Data) != string(p.Data[:min(l, m)]) {
					k.Fail("use-ping", "MaxRecvDataSegmentLength=%s, ping of %d bytes: %v", v, l, ps)
					break
				}
			}
		})
	}
	p13again(c)
}

// p13again logs in twice, in place of the session or of its connection; what the second login agreed on is used.
func p13again(c *Ctx) {
	vals := [][2]string{}
	for _, im := range []string{"Yes", "No"} {
		for _, mb := range []string{"512", "1024", "65536", "262144"} {
			vals = append(vals, [2]string{im, mb})
		}
	}
	for a, va := range vals {
		for b, vb := range vals {
			for _, conn := range []bool{false, true} {
				for _, seg := range []string{"512", "8192"} {
					c.Case(fmt.Sprintf("again/%d/%d/%v/%s", a, b, conn, seg), func(k *Case) {
						w := h.NewWorld(h.Simple(h.LUN{LUN: 0, Blocks: 16}))
						defer w.End()
						old := w.Session(0, 0, "ImmediateData", va[0], "MaxBurstLength", va[1], "MaxRecvDataSegmentLength", "1024")
						if old == nil {
							k.Fail("no-session", "cannot log in")
							return
						}
						i := w.Dial("10.0.0.1:40001", h.Portal)
						i.Name, i.ISID = old.Name, old.ISID
						if conn {
							i.TSIH, i.CmdSN = old.TSIH, old.CmdSN
						}
						if !i.Login(0, "ImmediateData", vb[0], "MaxBurstLength", vb[1], "MaxRecvDataSegmentLength", seg) {
							k.Fail("login-again", "%v", i.All)
							return
						}
						_, m := h.ParseKV(i.All[0].Data)
						burst, ok := num(m["MaxBurstLength"])
						if !ok || m["ImmediateData"] != vb[0] && m["ImmediateData"] != "No" {
							k.Fail("result again", "%v answered with %v", vb, m)
							return
						}
						imm := 0
						if m["ImmediateData"] == "Yes" {
							imm = 512
						}
						data := h.Fill(4096, 9)
						t := &wtask{i: i, lba: 1, data: data, imm: imm}
						for t.runnable() {
							i.Send(t.next())
							k.Op(1)
							for _, p := range i.Recv() {
								if e := t.take(p, burst); e != "" {
									k.Fail("use-write", "%v then %v: %s", va, vb, e)
									return
								}
							}
						}
						r := i.Exec(0, h.C10(0x28, 0, 1, 8), 4096, true, nil)
						s, _ := num(seg)
						if _, e := dataInShape(r, s, burst); !t.finished || !r.Good() || e != "" || string(r.Data) != string(data) {
							k.Fail("use-read", "%v then %v: %s %v", va, vb, e, r)
						}
						k.State(fmt.Sprint(vb, seg, conn))
					})
				}
			}
		}
	}
}
