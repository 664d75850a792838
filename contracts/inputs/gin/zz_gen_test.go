package gin

import (
	"github.com/gin-gonic/gin"
	"github.com/ls6-events/astra"
	vc "github.com/ls6-events/astra/zzvc"
	"github.com/rs/zerolog"
)

func init() {
	last := map[*gin.Engine]gin.RoutesInfo{}
	type seq struct {
		rs   gin.RoutesInfo
		deny []func(string) bool
	}
	var cur seq
	vc.GenType(func(g *vc.G) zerolog.Logger { return zerolog.Nop() })
	vc.GenType(func(g *vc.G) *gin.Engine {
		gin.SetMode(gin.ReleaseMode)
		r := gin.New()
		for i := g.Intn(5); i > 0; i-- {
			func() {
				defer func() { _ = recover() }()
				r.Handle(vc.Pick(g, "GET", "POST", "PUT"), "/"+vc.Pick(g, "a", "b", "a/:id", "c/*rest", "d"), func(*gin.Context) {})
			}()
		}
		return r
	})
	vc.Gen("zzGinCreateRoutes", func(g *vc.G) []any {
		s := vc.Val[*astra.Service](g)
		for s == nil {
			s = vc.Val[*astra.Service](g)
		}
		s.PathDenyList = nil
		for i := g.Intn(4); i > 0; i-- {
			p := "/" + vc.Pick(g, "a", "b", "c/*rest", "x")
			s.PathDenyList = append(s.PathDenyList, func(q string) bool { return p == q })
		}
		r := vc.Val[*gin.Engine](g)
		cur = seq{r.Routes(), s.PathDenyList}
		last = map[*gin.Engine]gin.RoutesInfo{r: cur.rs}
		return []any{r, s}
	})
	vc.GhostValFn("registered", func(a ...any) any { return last[a[0].(*gin.Engine)] })
	vc.GhostFn("out", func(a ...any) bool {
		for _, f := range cur.deny {
			if f(cur.rs[a[2].(int)].Path) {
				return true
			}
		}
		return false
	})
	vc.GhostValFn("kept", func(a ...any) any {
		n := 0
		for i := 0; i < a[2].(int) && i < len(cur.rs); i++ {
			denied := false
			for _, f := range cur.deny {
				denied = denied || f(cur.rs[i].Path)
			}
			if !denied {
				n++
			}
		}
		return n
	})
}
