package azureFunctions

import (
	"encoding/json"
	"os"
	"path"
	"regexp"
	"strings"

	"github.com/ls6-events/astra"
	vc "github.com/ls6-events/astra/zzvc"
)

// ---- the converted path

func zzPlaceholder(p *astra.Param) string {
	if p.IsRequired {
		return ":" + p.Name
	}
	return "*" + p.Name
}

func zzKnown(p *astra.Param) bool { _, ok := acceptedTypeMap[p.Field.Type]; return ok }

func zzTemplate(p *astra.Param) string {
	if p.IsRequired {
		return "{" + p.Name + ":" + acceptedTypeMap[p.Field.Type] + "}"
	}
	return "{" + p.Name + ":" + acceptedTypeMap[p.Field.Type] + "?}"
}

// zzNamed is the first parameter of a known type that the placeholder names, or -1.
func zzNamed(ps []astra.Param, m string) int {
	return vc.GhostVal[int]("named", vc.Ref(ps), len(ps), m)
}

// zzAzure is what a placeholder becomes.
func zzAzure(ps []astra.Param, m string) string {
	if k := zzNamed(ps, m); k >= 0 {
		return zzTemplate(&ps[k])
	}
	return m
}

// zzConverted names the converted path of a route (while its parameters do not change).
func zzConverted(r *astra.Route) string {
	return vc.GhostVal[string]("converted", r.Path, vc.Ref(r.PathParams), len(r.PathParams))
}

//vc:contract convertRoute
//vc:prop C18
func zzConvertRoute(route astra.Route) {
	ps := route.PathParams
	vc.Assume("definition: the first parameter that a placeholder names", vc.ForallStr(func(m string) bool {
		k := zzNamed(ps, m)
		return k >= -1 && k < len(ps) && (k < 0 || zzKnown(&ps[k]) && zzPlaceholder(&ps[k]) == m) &&
			vc.Forall(0, len(ps), func(j int) bool { return k >= 0 && k <= j || !zzKnown(&ps[j]) || zzPlaceholder(&ps[j]) != m })
	}))
	want := regexp.MustCompile(`[:*][^/]+`).ReplaceAllStringFunc(route.Path, func(m string) string { return zzAzure(ps, m) })
	vc.Invariant(func(v_i int, f_templates map[string]string) bool {
		return vc.ForallStr(func(m string) bool {
			_, ok := f_templates[m]
			k := zzNamed(ps, m)
			return ok == (k >= 0 && k < v_i)
		})
	})
	vc.Invariant(func(f_templates map[string]string) bool {
		return vc.ForallStr(func(m string) bool {
			t, ok := f_templates[m]
			return !ok || t == zzAzure(ps, m)
		})
	})
	r := convertRoute(route)
	vc.Define(r == zzConverted(&route))
	vc.Ensures("each placeholder becomes its parameter's template, everything else is kept", r == want)
}

// ---- the file system and the encoder: directories, files and encoded values are counted and recorded

func zzMayWrite(p string) bool { return vc.Ghost("mayWrite", p) }

var (
	zzDirs  int // number of directories created
	zzFiles int // number of files written
	zzVals  int // number of values encoded
	zzFails int // number of failed operations

	zzFailed error // outcome of the last one
)

func zzDirAt(i int) string                { return vc.GhostVal[string]("dirAt", i) }
func zzFileAt(i int) string               { return vc.GhostVal[string]("fileAt", i) }
func zzFileVal(i int) int                 { return vc.GhostVal[int]("fileVal", i) }
func zzFileMoves(i int) int               { return vc.GhostVal[int]("fileMoves", i) }
func zzEncoded(ref int) int               { return vc.GhostVal[int]("encoded", ref) }
func zzBindings(n int) int                { return vc.GhostVal[int]("bindings", n) }
func zzMethods(n, i int) int              { return vc.GhostVal[int]("methods", n, i) }
func zzMethod(n, i, j int) string         { return vc.GhostVal[string]("method", n, i, j) }
func zzBinding(n, i int, f string) string { return vc.GhostVal[string]("binding", n, i, f) }
func zzFail() error {
	err := vc.Any[error]()
	if err != nil {
		zzFails++
		zzFailed = err
	}
	return err
}

//vc:model os.Mkdir
func zzOsMkdir(p string, m os.FileMode) error {
	vc.Assert("creates only what is astra's own", zzMayWrite(p))
	err := zzFail()
	if err == nil {
		zzDirs++
		vc.Assume("recording of the directories created", zzDirAt(zzDirs) == p)
	}
	return err
}

//vc:model os.WriteFile
func zzOsWriteFile(p string, b []byte, m os.FileMode) error {
	vc.Assert("writes only what is astra's own", zzMayWrite(p))
	err := zzFail()
	if err == nil {
		zzFiles++
		vc.Assume("recording of the files written", zzFileAt(zzFiles) == p && zzFileVal(zzFiles) == zzEncoded(vc.Ref(b)) && zzFileMoves(zzFiles) == astra.ZZMoves)
	}
	return err
}

//vc:model encoding/json.MarshalIndent
func zzJSONMarshalIndent(v any, prefix, indent string) ([]byte, error) {
	b := make([]byte, 1)
	if err := zzFail(); err != nil {
		return nil, err
	}
	zzVals++
	n := zzVals
	vc.Assume("recording of the values encoded", zzEncoded(vc.Ref(b)) == n)
	if o, ok := v.(AzureFunctionsOutput); ok {
		vc.Assume("recording of the values encoded", zzBindings(n) == len(o.Bindings))
		for i := 0; i < 2; i++ {
			if i < len(o.Bindings) {
				x := &o.Bindings[i]
				vc.Assume("recording of the values encoded", zzBinding(n, i, "type") == x.Type && zzBinding(n, i, "direction") == x.Direction && zzBinding(n, i, "name") == x.Name && zzBinding(n, i, "route") == x.Route && zzMethods(n, i) == len(x.Methods))
				if len(x.Methods) > 0 {
					vc.Assume("recording of the values encoded", zzMethod(n, i, 0) == x.Methods[0])
				}
				if len(x.Methods) > 1 {
					vc.Assume("recording of the values encoded", zzMethod(n, i, 1) == x.Methods[1])
				}
			}
		}
	} else {
		vc.Assume("recording of the values encoded", zzBindings(n) == -1)
	}
	return b, nil
}

var _ = json.MarshalIndent

func zzFuncName(h string) string { return h[strings.LastIndex(h, ".")+1:] }

// zzRouteDone: the k-th directory and file are those of the route.
func zzRouteDone(dir string, d0, f0, k int, r *astra.Route) bool {
	d := path.Join(dir, zzFuncName(r.Handler))
	n := zzFileVal(f0 + 1 + k)
	return zzDirAt(d0+1+k) == d && zzFileAt(f0+1+k) == path.Join(d, "function.json") && zzBindings(n) == 2 &&
		zzBinding(n, 0, "type") == "httpTrigger" && zzBinding(n, 0, "direction") == "in" && zzBinding(n, 0, "name") == "req" &&
		zzBinding(n, 0, "route") == zzConverted(r) && zzMethods(n, 0) == 2 && zzMethod(n, 0, 0) == strings.ToLower(r.Method) && zzMethod(n, 0, 1) == "options" &&
		zzBinding(n, 1, "type") == "http" && zzBinding(n, 1, "direction") == "out" && zzBinding(n, 1, "name") == "res" && zzBinding(n, 1, "route") == "" && zzMethods(n, 1) == 0
}

//vc:lemma
//vc:noreplay
//vc:prop C18
func zzAzureGenerate(out string, s *astra.Service) {
	vc.Requires(s != nil)
	tmp := path.Join(path.Join(s.WorkDir, ".astra"), "azure")
	to := path.Join(s.WorkDir, out)
	rs := s.Routes
	vc.Requires(vc.Ghost("mayDelete", tmp) && vc.Ghost("mayDelete", to) && zzMayWrite(tmp) && zzMayWrite(to))
	vc.Requires(vc.ForallStr(func(f string) bool {
		return zzMayWrite(path.Join(tmp, f)) && zzMayWrite(path.Join(path.Join(tmp, f), "function.json"))
	}))
	d0, f0, n0, m0 := zzDirs, zzFiles, zzFails, astra.ZZMoves
	done := func(n int) bool {
		return zzDirs == d0+n && zzFiles == f0+n && vc.Forall(0, n, func(k int) bool { return zzRouteDone(tmp, d0, f0, k, &rs[k]) && zzFileMoves(f0+1+k) == m0 })
	}
	vc.Invariant(func(v_i int) bool { return zzDirs == d0+v_i && zzFiles == f0+v_i })
	vc.Invariant(func(v_i int) bool {
		return vc.Forall(0, v_i, func(k int) bool { return zzRouteDone(tmp, d0, f0, k, &rs[k]) })
	})
	vc.Invariant(func(v_i int) bool {
		return zzFiles == f0+v_i && astra.ZZMoves == m0 && vc.Forall(0, v_i, func(k int) bool { return zzFileMoves(f0+1+k) == m0 })
	})
	vc.Invariant(func() bool { return zzFails == n0 && astra.ZZMoves == m0 })
	err := Generate(out)(s)
	vc.Ensures("a directory and a binding file for every route, in order", err != nil || done(len(rs)))
	vc.Ensures("the first failure stops with its error", zzFails == n0 || zzFails == n0+1 && err == zzFailed)
	vc.Ensures("the final directory is put in place at the end of success", err != nil || astra.ZZMoves == m0+1)
	vc.Ensures("and only after all routes succeeded", astra.ZZMoves == m0 || astra.ZZMoves == m0+1 && astra.ZZMoveFrom == tmp && astra.ZZMoveTo == to && err == astra.ZZMoveErr && done(len(rs)))
}

// The methods of a trigger.
//
//vc:contract associatedMethods
//vc:prop C18
func zzAssociatedMethods(m string) {
	r := associatedMethods(m)
	vc.Ensures("the method in lower case, and options", len(r) == 2 && r[0] == strings.ToLower(m) && r[1] == "options")
}

func zzConstraint(t, want string) bool { return acceptedTypeMap[t] == want && want != "" }

// The route constraints.
//
//vc:lemma
//vc:prop C18
func zzAzureTable() {
	vc.Ensures("integers", zzConstraint("int", "long") && zzConstraint("int32", "int") && zzConstraint("int64", "long") && zzConstraint("uint", "long") && zzConstraint("uint32", "int") && zzConstraint("uint64", "long"))
	vc.Ensures("floats", zzConstraint("float32", "float") && zzConstraint("float64", "double"))
	vc.Ensures("others", zzConstraint("string", "alpha") && zzConstraint("bool", "bool") && zzConstraint("time.Time", "datetime") && zzConstraint("github.com/google/uuid.UUID", "guid"))
}
