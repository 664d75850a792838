package astra

import (
	"go/ast"
	"go/types"

	"github.com/ls6-events/astra/astTraversal"
	vc "github.com/ls6-events/astra/zzvc"
)

// Evaluations of call arguments are recorded: what was evaluated how, and with what result.
const (
	zzEvalStatus = iota + 1
	zzEvalValue
	zzEvalExprType
	zzEvalType
)

var (
	zzEvals int // number of evaluations

	zzEvalLast struct {
		kind     int
		node     ast.Node
		typ      types.Type
		pkg      *astTraversal.PackageNode
		status   int
		value    string
		result   astTraversal.Result
		exprType types.Type
		err      error
	}
)

//vc:model (*github.com/ls6-events/astra/astTraversal.BaseTraverser).ExtractStatusCode
func zzExtractStatusCode(t *astTraversal.BaseTraverser, n ast.Node) (int, error) {
	zzEvals++
	l := &zzEvalLast
	l.kind, l.node, l.status, l.err = zzEvalStatus, n, vc.Any[int](), vc.Any[error]()
	return l.status, l.err
}

//vc:model (*github.com/ls6-events/astra/astTraversal.ExpressionTraverser).Value
func zzExprValue(e *astTraversal.ExpressionTraverser) (string, error) {
	zzEvals++
	l := &zzEvalLast
	l.kind, l.node, l.value, l.err = zzEvalValue, e.Node, vc.Any[string](), vc.Any[error]()
	return l.value, l.err
}

//vc:model (*github.com/ls6-events/astra/astTraversal.ExpressionTraverser).Type
func zzExprType(e *astTraversal.ExpressionTraverser) (types.Type, error) {
	zzEvals++
	l := &zzEvalLast
	l.kind, l.node, l.exprType, l.err = zzEvalExprType, e.Node, vc.Any[types.Type](), vc.Any[error]()
	return l.exprType, l.err
}

//vc:model (*github.com/ls6-events/astra/astTraversal.TypeTraverser).Result
func zzTypeResult(t *astTraversal.TypeTraverser) (astTraversal.Result, error) {
	zzEvals++
	l := &zzEvalLast
	l.kind, l.typ, l.pkg, l.result, l.err = zzEvalType, t.Node, t.Package, vc.Any[astTraversal.Result](), vc.Any[error]()
	return l.result, l.err
}

// zzAppended: the operations are the previous ones and one more.
func zzAppended(now, old []func() (any, error)) bool {
	return len(now) == len(old)+1 && vc.Forall(0, len(old), func(i int) bool { return vc.SameFunc(now[i], old[i]) })
}

//vc:lemma
//vc:noreplay
//vc:prop C15
func zzIgnored(c *ContextFuncBuilder) {
	vc.Requires(c != nil)
	vc.Modifies(c)
	vc.ModifiesSpare(c.paramOperations)
	want, old := *c, vc.Snap(c.paramOperations)
	r := c.Ignored()
	ops := c.paramOperations
	vc.Ensures("one more operation", r == c && zzAppended(ops, old))
	want.paramOperations = ops
	vc.Ensures("builder otherwise unchanged", vc.Same(*c, want))
	op := ops[len(old)]
	c.Ignored() // operations run after the whole chain is built
	n := zzEvals
	v, err := op()
	vc.Ensures("takes up the position and yields nil", v == nil && err == nil && zzEvals == n)
}

//vc:lemma
//vc:noreplay
//vc:prop C15
func zzStatusCode(c *ContextFuncBuilder) {
	vc.Requires(c != nil)
	vc.Modifies(c)
	vc.ModifiesSpare(c.paramOperations)
	want, old := *c, vc.Snap(c.paramOperations)
	r := c.StatusCode()
	ops := c.paramOperations
	vc.Ensures("one more operation", r == c && zzAppended(ops, old))
	want.paramOperations = ops
	vc.Ensures("builder otherwise unchanged", vc.Same(*c, want))
	op := ops[len(old)]
	c.Ignored() // operations run after the whole chain is built
	vc.Requires(c.Traverser != nil && c.Traverser.Traverser != nil && c.Traverser.Node != nil && len(c.Traverser.Node.Args) > len(old))
	n := zzEvals
	v, err := op()
	l := zzEvalLast
	s, ok := v.(int)
	vc.Ensures("the status code of the argument at its position", zzEvals == n+1 && l.kind == zzEvalStatus && l.node == c.Traverser.Node.Args[len(old)] && err == l.err && (err != nil || ok && s == l.status))
}

//vc:lemma
//vc:noreplay
//vc:prop C15
func zzValue(c *ContextFuncBuilder) {
	vc.Requires(c != nil)
	vc.Modifies(c)
	vc.ModifiesSpare(c.paramOperations)
	want, old := *c, vc.Snap(c.paramOperations)
	r := c.Value()
	ops := c.paramOperations
	vc.Ensures("one more operation", r == c && zzAppended(ops, old))
	want.paramOperations = ops
	vc.Ensures("builder otherwise unchanged", vc.Same(*c, want))
	op := ops[len(old)]
	c.Ignored() // operations run after the whole chain is built
	vc.Requires(c.Traverser != nil && c.Traverser.Traverser != nil && c.Traverser.Node != nil && len(c.Traverser.Node.Args) > len(old))
	n := zzEvals
	v, err := op()
	l := zzEvalLast
	s, ok := v.(string)
	vc.Ensures("the value of the argument at its position", zzEvals == n+1 && l.kind == zzEvalValue && l.node == c.Traverser.Node.Args[len(old)] && err == l.err && (err != nil || ok && s == l.value))
}

//vc:lemma
//vc:noreplay
//vc:prop C15
func zzExpressionResult(c *ContextFuncBuilder) {
	vc.Requires(c != nil)
	vc.Modifies(c)
	vc.ModifiesSpare(c.paramOperations)
	want, old := *c, vc.Snap(c.paramOperations)
	r := c.ExpressionResult()
	ops := c.paramOperations
	vc.Ensures("one more operation", r == c && zzAppended(ops, old))
	want.paramOperations = ops
	vc.Ensures("builder otherwise unchanged", vc.Same(*c, want))
	op := ops[len(old)]
	c.Ignored() // operations run after the whole chain is built
	vc.Requires(c.Traverser != nil && c.Traverser.Traverser != nil && c.Traverser.Node != nil && c.Traverser.File != nil && len(c.Traverser.Node.Args) > len(old))
	n := zzEvals
	v, err := op()
	l := zzEvalLast
	s, ok := v.(astTraversal.Result)
	vc.Ensures("the type of the argument at its position", zzEvals > n && l.node == c.Traverser.Node.Args[len(old)] && err == l.err)
	vc.Ensures("nothing more when there is none", zzEvals != n+1 || err != nil && v == nil && l.kind == zzEvalExprType)
	vc.Ensures("analysed in the package of the call", zzEvals <= n+2 && (zzEvals != n+2 || l.kind == zzEvalType && l.typ == l.exprType && l.pkg == c.Traverser.File.Package && (err != nil || ok && vc.Same(s, l.result))))
}

//vc:lemma
//vc:noreplay
//vc:prop C15
func zzNewContextFuncBuilder(r *Route, t *astTraversal.CallExpressionTraverser) {
	b := NewContextFuncBuilder(r, t)
	vc.Ensures("a builder for the route and the call, without parameters", b != nil && b.Route == r && b.Traverser == t && len(b.paramOperations) == 0)
}

// Calls of operations and of mappers are recorded.
var (
	zzOps        int // number of operations called
	zzMaps       int // number of mappers called
	zzMapAfter   int // how many operations had been called before
	zzMapFn      func(*Route, []any) (*Route, error)
	zzMapRoute   *Route
	zzMapResults []any
	zzMapOut     *Route
	zzMapErr     error
)

func zzOpFn(i int) func() (any, error) { return vc.GhostVal[func() (any, error)]("opFn", i) }
func zzOpRes(i int) any                { return vc.GhostVal[any]("opRes", i) }
func zzOpErr(i int) error              { return vc.GhostVal[error]("opErr", i) }

//vc:opaque func() (any, error)
func zzOperation(f func() (any, error)) (any, error) {
	v, err := vc.Any[any](), vc.Any[error]()
	zzOps++
	vc.Assume("recording of the operations called", vc.SameFunc(zzOpFn(zzOps), f) && vc.Same(zzOpRes(zzOps), v) && zzOpErr(zzOps) == err)
	return v, err
}

//vc:opaque func(*astra.Route, []any) (*astra.Route, error)
func zzMapper(f func(*Route, []any) (*Route, error), r *Route, vs []any) (*Route, error) {
	zzMaps++
	zzMapAfter = zzOps
	zzMapFn, zzMapRoute, zzMapResults = f, r, vs
	zzMapOut, zzMapErr = vc.Any[*Route](), vc.Any[error]()
	return zzMapOut, zzMapErr
}

//vc:lemma
//vc:noreplay
//vc:prop C15
func zzBuildParams(c *ContextFuncBuilder, mapper func(*Route, []any) (*Route, error)) {
	vc.Requires(c != nil && mapper != nil)
	ops := c.paramOperations
	vc.Requires(vc.Forall(0, len(ops), func(i int) bool { return ops[i] != nil }))
	o0, m0 := zzOps, zzMaps
	vc.Invariant(func(v_i int) bool {
		return zzOps == o0+v_i && zzMaps == m0 && vc.Forall(0, v_i, func(i int) bool { return vc.SameFunc(zzOpFn(o0+1+i), ops[i]) && zzOpErr(o0+1+i) == nil })
	})
	vc.Invariant(func(v_i int, f_results []any) bool {
		return len(f_results) == len(ops) && vc.Forall(0, v_i, func(i int) bool { return vc.Same(f_results[i], zzOpRes(o0+1+i)) })
	})
	vc.Invariant(func(v_i int, v_results []any) bool {
		return len(v_results) == v_i && vc.Forall(0, v_i, func(i int) bool { return vc.Same(v_results[i], zzOpRes(o0+1+i)) })
	})
	r, err := c.Build(mapper)
	k := zzOps - o0
	vc.Ensures("every parameter once, in order, up to the first error", k >= 0 && k <= len(ops) && vc.Forall(0, k, func(i int) bool {
		return vc.SameFunc(zzOpFn(o0+1+i), ops[i]) && (zzOpErr(o0+1+i) == nil || i == k-1)
	}))
	vc.Ensures("an error stops the building without calling the mapper", zzMaps != m0 || k > 0 && zzOpErr(o0+k) != nil && err == zzOpErr(o0+k) && r == nil)
	vc.Ensures("otherwise the mapper is called once, after all parameters, and its outcome returned", zzMaps == m0 || zzMaps == m0+1 && k == len(ops) && (k == 0 || zzOpErr(o0+k) == nil) && zzMapAfter == zzOps && vc.SameFunc(zzMapFn, mapper) && r == zzMapOut && err == zzMapErr)
	vc.Ensures("with the route and the results in order", zzMaps == m0 || zzMapRoute == c.Route && len(zzMapResults) == len(ops) && vc.Forall(0, len(ops), func(i int) bool { return vc.Same(zzMapResults[i], zzOpRes(o0+1+i)) }))
}
