package main

import (
	"go/types"
)

// Signatures.

var signerAssume = []string{
	"crypto/hmac, crypto/sha256 and encoding/hex are what they are documented to be; the YAML library is a function of the document",
}

func init() {
	byteSlice := types.NewSlice(types.Typ[types.Byte])
	stdModels["crypto/hmac.New"] = func(fr *frame, c *callInfo) (*Term, bool) {
		o := fr.m.newObj("hmac#"+fr.fn.Name()+fr.m.w.posn(c.pos), c.typ)
		if fr.m.attr == nil {
			fr.m.attr = map[*Term]*Term{}
		}
		fr.m.attr[o] = mkT(OTuple, "", nil, c.args...)
		fr.m.heap[mkT(OBufOf, "", nil, o)] = mkStr("")
		return o, true
	}
	stdModels["(hash.Hash).Write"] = stdModels["(io.Writer).Write"]
	stdModels["(hash.Hash).Reset"] = stdModels["(*bytes.Buffer).Reset"]
	stdModels["(hash.Hash).Sum"] = func(fr *frame, c *callInfo) (*Term, bool) {
		h := unbox(c.args[0])
		a := fr.m.attr[h]
		if a == nil {
			return nil, false
		}
		sum := lift(fr.m.bufGet(h), func(b *Term) *Term {
			return mkT(OCall, "hmac", byteSlice, a.args[0], a.args[1], b)
		})
		if p := c.args[1]; p.op != ONil {
			return catLift(p, sum), true
		}
		return sum, true
	}
	eq := func(fr *frame, x, y *Term) *Term {
		if x.id > y.id {
			x, y = y, x
		}
		return symb(mkT(OCall, "constant-time-equal", types.Typ[types.Bool], x, y))
	}
	stdModels["crypto/hmac.Equal"] = func(fr *frame, c *callInfo) (*Term, bool) {
		return lift(c.args[0], func(x *Term) *Term {
			return lift(c.args[1], func(y *Term) *Term { return eq(fr, x, y) })
		}), true
	}
	stdModels["crypto/subtle.ConstantTimeCompare"] = func(fr *frame, c *callInfo) (*Term, bool) {
		return lift(c.args[0], func(x *Term) *Term {
			return lift(c.args[1], func(y *Term) *Term {
				b := toB(eq(fr, x, y))
				return mkIte([]alt{{b, mkInt(1)}, {bNot(b), mkInt(0)}})
			})
		}), true
	}
	raw := opaque("yaml.ParseRawBytes")
	use := func(c *Ctx, fns ...string) {
		for _, n := range fns {
			target := n
			if n == "VerifyOnError" || n == "VerifyError" {
				target = "Verify"
			}
			c.pair(n, c.fnPos(c.w.fn("yaml/signer", target)), "signer."+target, raw)
		}
	}
	register(&Check{id: "S01", minObs: 6, assume: signerAssume,
		rule: "guarded value flow of Verify on an arbitrary file and key equals the reference: true exactly when the file can be read, its first signature document decodes, the key has at least 32 bytes and a constant-time comparison of the decoded value with HMAC-SHA256(key, data of all other documents) succeeds; never true with an error",
		run: func(c *Ctx) {
			use(c, "Verify", "VerifyOnError", "VerifyError")
			c.pair("KeyString", c.fnPos(c.w.fn("yaml/signer", "KeyString")), "signer.KeyString")
		}})
	register(&Check{id: "S02", minObs: 3, assume: signerAssume,
		rule: "guarded value flow of Sign on an arbitrary file and key equals the reference",
		run: func(c *Ctx) {
			use(c, "Sign")
			// what separates one document from the next in the signed data
			f := c.w.fn("yaml/"+specDir, "UseSign")
			m := c.machine()
			raw(m)
			r, _ := c.call(m, f, c.param("data", f.Params[0].Type()), c.param("key", f.Params[1].Type()))
			where := c.fnPos(c.w.fn("yaml/signer", "Sign"))
			n := 0
			seen := map[*Term]bool{}
			mentions(r, func(x *Term) bool {
				if x.op != OCall || x.sym != "hmac" || seen[x] {
					return false
				}
				seen[x] = true
				segs, _ := segsOf("str", x.args[2])
				for _, s := range segs {
					if s.kind != SegEach {
						continue
					}
					n++
					sep := false
					for _, b := range s.body {
						if b.kind == SegSingle && len(freeVars(b.val)) == 0 && mkEmpty(b.val) == bFalse {
							sep = true
						}
					}
					c.ob("boundaries", sep, where, "documents are signed without anything between them: moving or removing a document boundary keeps the signature")
				}
				return false
			})
			c.ob("documents", n > 0, where, "no document is signed")
		}})
	register(&Check{id: "S03", minObs: 6, assume: signerAssume,
		rule: "guarded value flow of SignUpdate and WriteTo on an arbitrary file equals the reference",
		run:  func(c *Ctx) { use(c, "SignUpdate", "WriteTo") }})
}
