package main

import (
	"strings"
)

func init() {
	props["C01"] = checkC01
}

func isBoltWrite(name string) bool {
	switch name {
	case "(*" + boltP + "DB).Update", "(*" + boltP + "DB).Batch", "(*" + boltP + "DB).Begin":
		return true
	}
	return isBucketWrite(name)
}

func isBucketWrite(name string) bool {
	if !strings.HasPrefix(name, "(*"+boltP+"Bucket).") && !strings.HasPrefix(name, "(*"+boltP+"Tx).") && !strings.HasPrefix(name, "(*"+boltP+"Cursor).") {
		return false
	}
	m := name[strings.LastIndex(name, ".")+1:]
	switch m {
	case "Put", "Delete", "CreateBucket", "CreateBucketIfNotExists", "DeleteBucket", "NextSequence", "SetSequence", "MoveBucket":
		return true
	}
	return false
}

var dnPolicy = map[string]string{
	dnPkg + ".Normalize": "pure",
}

func policy(ms ...map[string]string) map[string]string {
	r := map[string]string{}
	for _, m := range ms {
		for k, v := range m {
			r[k] = v
		}
	}
	return r
}

// normDN is the normalised form of a DN string term.
func (x *Exec) normDN(dn *Term) *Term {
	u := x.u
	return u.call(dnPkg+".Normalize", nil, u.initOf(u.ext(u.call(ldapP+"ParseDN", nil, dn), 0), nil))
}

func checkC01(r *Run) {
	r.rule("admin-only-write", "every call of the database write API reachable from Add, Delete, Modify and ModifyDN happens only where the identity equals the normalised configured administrator DN and is not empty", 4)
	r.rule("refusal-result", "without that fact the method returns a non-success code", 4)
	for _, op := range []string{"Add", "Delete", "Modify", "ModifyDN"} {
		op := op
		var admin, bound func(x *Exec) *Term
		admin = func(x *Exec) *Term {
			return x.normDN(x.fieldInit(x.u.sym("options"), "AdminDN"))
		}
		bound = func(x *Exec) *Term { return x.u.sym("boundDN") }
		started := false
		spec := &Spec{id: r.id, policy: policy(dnPolicy, map[string]string{entryPkg + ".ApplyModify": "opaque", entryPkg + ".EntryFromAddRequest": "opaque"})}
		isAdmin := func(x *Exec, st *State) bool {
			return st.same(bound(x), admin(x)) && st.refuted(x.u.eq(bound(x), x.u.EmptyS))
		}
		spec.pre = func(c *Call, st *State) {
			if !started || !isBoltWrite(c.name) {
				return
			}
			c.x.obligation("admin-only-write", c.in)
			if !isAdmin(c.x, st) {
				c.x.report("admin-only-write", c.in, op+": "+short(c.name), "database write reachable for a requester that is not the configured administrator", st)
			}
		}
		r.analyse(op, spec, func(x *Exec) {
			ws := x.build(boltdbPkg, "NewBoltDBHandler", newState(x.u), "", "", "options")
			started = true
			for _, w := range ws {
				for _, o := range x.callMethod(w, op, "boundDN", "req", "conn") {
					if o.kind != KRet {
						continue
					}
					x.oblig["refusal-result"]++
					if isAdmin(x, o.st) {
						continue
					}
					if !o.st.refuted(x.u.eq(x.u.ext(o.ret, 0), x.u.Zero)) {
						m, _ := x.methodOfValue(w.recv, op)
						x.report("refusal-result", m.Blocks[0].Instrs[0], op, "success returned to a requester that is not the administrator", o.st)
					}
				}
			}
		})
	}
}
