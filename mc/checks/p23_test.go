package checks

import (
	"fmt"
	"strings"

	"verifmc/h"
)

func init() {
	reg("P23", "model_checking",
		"every sequence up to the depth of connects from four hosts (two IPv4, two IPv6), full and half logins, refused logins, logout, close and reset of any of up to three open connections; every ordered pair of thirty addresses that differ in one digit, group or bit or are the beginning or end of one another; with and without single-host mode; oracle: the set of hosts with open connections; a state is (hosts of the open connections, login states)",
		p23)
}

func p23(c *Ctx) {
	p23pairs(c)
	hosts := []string{"10.0.0.1:%d", "10.0.0.2:%d", "[fd00::1]:%d", "[fd00::2]:%d"}
	type conn struct {
		i    *h.Ini
		host int
		st   int // 0 connected, 1 logged in, 2 half
	}
	acts := []string{"login", "half", "bad", "logout", "close", "reset"}
	depth := Pick(c, 5, 6)
	for _, block := range []bool{true, false} {
		do := func(seq []string) {
			c.Case(fmt.Sprintf("%v/%s", block, strings.Join(seq, "/")), func(k *Case) {
				cfg := h.Simple(h.LUN{LUN: 0, Blocks: 2})
				cfg.Block = block
				w := h.NewWorld(cfg)
				defer w.End()
				var cs []*conn
				n := 0
				for _, a := range seq {
					k.Op(1)
					name, arg, _ := strings.Cut(a, " ")
					x := int(arg[0] - '0')
					if name == "open" {
						n++
						i := w.Dial(fmt.Sprintf(hosts[x], 40000+n), h.Portal)
						if i == nil {
							k.Fail("dial", "no connection")
							return
						}
						i.ISID += uint64(n)
						i.Recv()
						allowed := true
						for _, o := range cs {
							if block && o.host != x {
								allowed = false
							}
						}
						if allowed == i.EOF {
							k.Fail("admission", "a connection from host %s with connections from %v: refused %v", hosts[x], p23hosts(cs, func(o *conn) int { return o.host }), i.EOF)
							return
						}
						if allowed {
							cs = append(cs, &conn{i: i, host: x})
						} else {
							// whatever it sends has no answer
							if i.Login(0) || len(i.All) > 0 {
								k.Fail("admission", "a refused connection is served")
								return
							}
						}
						continue
					}
					o := cs[x]
					gone := false
					switch name {
					case "login":
						if !o.i.Login(0) {
							k.Fail("login", "refused: %v", o.i.All)
							return
						}
						o.st = 1
					case "half":
						o.i.Send(h.LoginPDU(o.i.ISID, 0, o.i.CID, 0, 1, false, o.i.ITT(), o.i.CmdSN, o.i.ExpStat, h.KV("InitiatorName", o.i.Name, "TargetName", w.Names[0], "SessionType", "Normal")))
						o.i.Recv()
						o.st = 2
					case "bad":
						if o.i.LoginName("iqn.none") {
							k.Fail("login", "a login to no target succeeds")
						}
						gone = true
					case "logout":
						p := &h.PDU{}
						p.B[0], p.B[1] = h.OpLogout|0x40, 0x80
						p.Put32(16, o.i.ITT()).Put32(24, o.i.CmdSN).Put32(28, o.i.ExpStat)
						o.i.Do(p)
						gone = true
					case "close":
						o.i.Close()
						gone = true
					case "reset":
						o.i.C.Reset()
						h.Settle()
						gone = true
					}
					if gone {
						o.i.Recv()
						if !o.i.EOF && name != "close" && name != "reset" {
							k.Fail("close", "the connection stays open after %s", name)
							return
						}
						cs = append(cs[:x:x], cs[x+1:]...)
					}
				}
				for x, o := range cs {
					o.i.Recv()
					if o.i.EOF {
						k.Fail("dropped", "connection %d from %s is closed", x, hosts[o.host])
					} else if o.st == 1 {
						if r := o.i.Exec(0, h.TUR(), 0, false, nil); !r.Good() {
							k.Fail("dropped", "session %d from %s: %v", x, hosts[o.host], r)
						}
					}
				}
				k.State(fmt.Sprint(block, p23hosts(cs, func(o *conn) int { return o.host*4 + o.st })))
				k.crashes(w, "crash")
			})
		}
		// the enumeration follows the oracle: which slots are open and in which state
		type slot struct{ host, st int }
		var walk func(seq []string, cs []slot)
		walk = func(seq []string, cs []slot) {
			if len(seq) > 0 {
				do(seq)
			}
			d := depth
			if !block {
				d = depth - 2
			}
			if len(seq) >= d {
				return
			}
			next := func(a string, cs []slot) { walk(append(append([]string{}, seq...), a), cs) }
			for x := range hosts {
				ok := true
				for _, o := range cs {
					ok = ok && (!block || o.host == x)
				}
				if ok && len(cs) < 3 {
					next(fmt.Sprintf("open %d", x), append(append([]slot{}, cs...), slot{x, 0}))
				} else if !ok {
					next(fmt.Sprintf("open %d", x), cs)
				}
			}
			for x, o := range cs {
				rest := append(append([]slot{}, cs[:x]...), cs[x+1:]...)
				for _, a := range acts {
					if (a == "login" || a == "half" || a == "bad") && o.st != 0 || a == "logout" && o.st != 1 {
						continue
					}
					cur := append([]slot{}, cs...)
					switch a {
					case "login":
						cur[x].st = 1
					case "half":
						cur[x].st = 2
					default:
						cur = rest
					}
					next(fmt.Sprintf("%s %d", a, x), cur)
				}
			}
		}
		walk(nil, nil)
	}
}

// p23pairs: hosts are told apart by their whole address.
func p23pairs(c *Ctx) {
	addrs := []string{"[::1]", "[::11]", "[::1:1]", "[1::]", "[1::1]", "[fd00::1]", "[fd00::11]", "[fd00::1:1]", "[fd00:0:0:1::1]", "[fd00::8001]", "[fd01::1]", "[fd00::1:0:0:1]", "[fe80::1]"}
	for _, a := range []string{"10.0.0.1", "10.0.0.11", "10.0.0.12", "10.0.0.111", "10.0.0.10", "10.0.0.129", "10.0.1.1", "10.0.11.1", "10.1.0.1", "10.10.0.1", "1.0.0.1", "11.0.0.1", "110.0.0.1", "10.0.0.3", "138.0.0.1", "10.128.0.1", "127.0.0.1"} {
		addrs = append(addrs, a)
	}
	for _, a := range addrs {
		for _, b := range addrs {
			c.Case("pair/"+a+"/"+b, func(k *Case) {
				cfg := h.Simple(h.LUN{LUN: 0, Blocks: 2})
				cfg.Block = true
				w := h.NewWorld(cfg)
				defer w.End()
				open := func(who string, port int, want bool, when string) *h.Ini {
					k.Op(1)
					i := w.Dial(fmt.Sprintf("%s:%d", who, port), h.Portal)
					i.ISID += uint64(port)
					i.Recv()
					ok := !i.EOF && i.LoginName(w.Names[0])
					if ok != want {
						k.Fail("admission", "%s: a connection from %s is served: %v, want %v", when, who, ok, want)
					}
					return i
				}
				x := open(a, 40000, true, "no connection is open")
				y := open(b, 40000+1, a == b, "a connection of "+a+" is open")
				z := open(a, 4000, true, "a connection of "+a+" is open")
				x.C.Close()
				h.Settle()
				open(b, 4001, a == b, "the second connection of "+a+" is open").C.Close()
				h.Settle()
				z.C.Close()
				y.C.Close()
				h.Settle()
				open(b, 40002, true, "no connection is open any more")
				open(a, 40003, a == b, "a connection of "+b+" is open")
			})
		}
	}
}

func p23hosts[T any](l []T, f func(T) int) (r []int) {
	for _, x := range l {
		r = append(r, f(x))
	}
	return
}
