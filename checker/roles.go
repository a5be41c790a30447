package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// role describes a function of the repository that rules refer to, by the types it takes and returns. Its name is only
// the one under which the rules know it: the function may be called anything.
type role struct {
	pkg, name string
	params    []string // all of them are among the parameters
	results   []string // these are the results, in order
}

const ldapGo = "github.com/go-ldap/ldap/v3."

var roles = []role{
	{lsPkg, "routeFunc", []string{"string", "[]string"}, []string{"string"}},
	{lsPkg, "dumpModRequest", []string{"*" + ldapGo + "ModifyRequest"}, []string{"string"}},
	{lsPkg, "encodeSearchResponse", []string{"int64", "*" + ldapGo + "Entry"}, []string{"*ber.Packet"}},
	{lsPkg, "encodeSearchAttribute", []string{"string", "[]string"}, []string{"*ber.Packet"}},
	{lsPkg, "encodeSearchDone", []string{"int64", "LDAPResultCode", "*[]" + ldapGo + "Control"}, []string{"*ber.Packet"}},
	{lsPkg, "encodeExtendedResponse", []string{"LDAPResultCode", "string", "string", "*ber.Packet"}, []string{"*ber.Packet"}},
	{lsPkg, "encodeLDAPResponse", []string{"int64", "uint8", "LDAPResultCode", "string"}, []string{"*ber.Packet"}},
	{lsPkg, "encodeBindResponse", []string{"int64", "LDAPResultCode"}, []string{"*ber.Packet"}},
	{lsPkg, "filterAttributes", []string{"*" + ldapGo + "Entry", "[]string"}, []string{"*" + ldapGo + "Entry", "error"}},
	{ldifPkg, "parseLDIFFile", []string{"string"}, []string{"*ldif.LDIF", "error"}},
	{ldifPkg, "parseLDIFDirectory", []string{"string"}, []string{"*ldif.LDIF", "[]error", "error"}},
	{ldifPkg, "treeFromLDIF", []string{"*ldif.LDIF"}, []string{"*go-suffix-tree.Tree", "error"}},
	{ldifPkg, "parseFilterToIndexFilter", []string{"string"}, []string{"[][]string", "error"}},
	{ldifPkg, "newIndexMapRegister", nil, []string{"map[string]Index"}},
	{pwPkg, "crypt", []string{"string", "string"}, []string{"string", "error"}},
}

// roleNames gives the name the rules use for each function found by its role.
var roleNames = map[*ssa.Function]string{}

func (p *Program) findRoles() {
	known := map[string]bool{}
	for _, r := range roles {
		known[r.pkg+"."+r.name] = true
	}
	for _, r := range roles {
		named := false
		var found []*ssa.Function
		for _, f := range p.funcs {
			if pkgPath(f) != r.pkg || f.Parent() != nil || f.Object() == nil {
				continue
			}
			if f.String() == r.pkg+"."+r.name {
				named = true
				break
			}
			if !known[f.String()] && roleNames[f] == "" && !f.Object().Exported() && r.fits(f.Signature) {
				found = append(found, f)
			}
		}
		if named {
			continue
		}
		if f := outermost(found); f != nil {
			roleNames[f] = r.pkg + "." + r.name
		}
	}
}

// outermost is the only one of the functions that none of the others calls.
func outermost(fs []*ssa.Function) *ssa.Function {
	called := map[*ssa.Function]bool{}
	for _, f := range fs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if cc := callOf(in); cc != nil && cc.StaticCallee() != nil && cc.StaticCallee() != f {
					called[cc.StaticCallee()] = true
				}
			}
		}
	}
	var one *ssa.Function
	for _, f := range fs {
		if called[f] {
			continue
		}
		if one != nil {
			return nil
		}
		one = f
	}
	return one
}

func (r role) fits(sig *types.Signature) bool {
	if sig.Results().Len() != len(r.results) || r.params == nil && sig.Params().Len() != 0 {
		return false
	}
	for i, w := range r.results {
		if !isRoleType(sig.Results().At(i).Type(), w) {
			return false
		}
	}
	used := map[int]bool{}
	for _, w := range r.params {
		ok := false
		for i := 0; i < sig.Params().Len() && !ok; i++ {
			if !used[i] && isRoleType(sig.Params().At(i).Type(), w) {
				used[i], ok = true, true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// isRoleType compares a type with its description, in which the path of a package may be left out.
func isRoleType(t types.Type, want string) bool {
	for _, t := range []types.Type{t, t.Underlying()} {
		if types.TypeString(t, nil) == want {
			return true
		}
		short := types.TypeString(t, func(p *types.Package) string {
			if p.Path() == lsPkg || p.Path() == ldifPkg {
				return ""
			}
			return p.Path()[strings.LastIndexByte(p.Path(), '/')+1:]
		})
		if short == want || strings.ReplaceAll(short, "asn1-ber.", "ber.") == want {
			return true
		}
	}
	return false
}

// plainField is the name of the only field of the struct that is not exported and of the type.
func plainField(t types.Type, want string) string {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	name := ""
	for i := 0; i < s.NumFields(); i++ {
		if f := s.Field(i); !f.Exported() && isRoleType(f.Type(), want) {
			if name != "" {
				panic(undecided{"more than one field of " + t.String() + " may be meant"})
			}
			name = f.Name()
		}
	}
	if name == "" {
		panic(undecided{"no field of " + t.String() + " is a " + want})
	}
	return name
}

// embedding is the struct of the package that embeds the type.
func (x *Exec) embedding(pkg, inner string) types.Type {
	sp := x.p.byPkg[pkg]
	var found types.Type
	for _, m := range sp.Members {
		mt, ok := m.(*ssa.Type)
		if !ok {
			continue
		}
		s, ok := mt.Type().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		for i := 0; i < s.NumFields(); i++ {
			if f := s.Field(i); f.Embedded() && isRoleType(f.Type(), inner) {
				if found != nil {
					panic(undecided{"more than one type of " + pkg + " embeds " + inner})
				}
				found = mt.Type()
			}
		}
	}
	if found == nil {
		panic(undecided{"no type of " + pkg + " embeds " + inner})
	}
	return found
}
