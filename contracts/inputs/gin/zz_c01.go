package gin

import (
	"os"

	"github.com/gin-gonic/gin"
	"github.com/ls6-events/astra"
	vc "github.com/ls6-events/astra/zzvc"
)

// The registered routes of a router: the same list each time it is asked for.
func zzRegistered(r *gin.Engine) gin.RoutesInfo { return vc.GhostVal[gin.RoutesInfo]("registered", r) }

//vc:model (*github.com/gin-gonic/gin.Engine).Routes
func zzGinRoutes(r *gin.Engine) gin.RoutesInfo { return zzRegistered(r) }

//vc:model os.Getwd
func zzOsGetwd() (string, error) { return vc.Any[string](), vc.Any[error]() }

var _ = os.Getwd

func zzDenied(deny []func(string) bool, p string) bool {
	return vc.Exists(0, len(deny), func(i int) bool { return deny[i](p) })
}

// zzKept is how many of the first i routes are not denied.
func zzKept(rs gin.RoutesInfo, deny []func(string) bool, i int) int {
	return vc.GhostVal[int]("kept", vc.Ref(rs), vc.Ref(deny), i)
}

func zzIs(r *astra.Route, g *gin.RouteInfo) bool {
	return r.Path == g.Path && r.Method == g.Method && r.Handler == g.Handler
}

//vc:contract createRoute
//vc:prop C01
func zzCreateRoute(s *astra.Service, file string, line int, info gin.RouteInfo) {
	vc.Requires(s != nil)
	vc.Modifies(s)
	vc.ModifiesSpare(s.Routes)
	want, old := *s, vc.Snap(s.Routes)
	err := createRoute(s, file, line, info)
	now := s.Routes
	vc.Ensures("the previous routes", len(now) >= len(old) && vc.Forall(0, len(old), func(i int) bool { return vc.Same(now[i], old[i]) }))
	vc.Ensures("one more on success, none on failure", len(now) == len(old) && err != nil || len(now) == len(old)+1 && err == nil)
	vc.Ensures("with its own method, path and handler", err != nil || zzIs(&now[len(old)], &info))
	vc.Ensures("nothing recorded yet", err != nil || len(now[len(old)].PathParams) == 0 && len(now[len(old)].Body) == 0 && len(now[len(old)].QueryParams) == 0 && len(now[len(old)].ReturnTypes) == 0 && len(now[len(old)].RequestHeaders) == 0)
	want.Routes = s.Routes
	vc.Ensures("service otherwise unchanged", vc.Same(*s, want))
}

//vc:lemma
//vc:prop C01
func zzGinCreateRoutes(router *gin.Engine, s *astra.Service) {
	vc.Requires(s != nil && router != nil)
	vc.Modifies(s)
	vc.ModifiesSpare(s.Routes)
	rs, deny := zzRegistered(router), s.PathDenyList
	vc.Requires(vc.Allocated(rs))
	vc.Requires(vc.Forall(0, len(deny), func(i int) bool { return deny[i] != nil }))
	want, old := *s, vc.Snap(s.Routes)
	kept := func(i int) int { return zzKept(rs, deny, i) }
	out := func(i int) bool { return vc.Ghost("out", vc.Ref(rs), vc.Ref(deny), i) }
	vc.Assume("definition: out(i) says that a rule matches the i-th route", vc.Forall(0, len(rs), func(i int) bool { return out(i) == zzDenied(deny, rs[i].Path) }))
	vc.Assume("definition: kept(i) is how many of the first i routes no rule matches", kept(0) == 0 && vc.Forall(0, len(rs), func(i int) bool {
		return vc.Implies(out(i), kept(i+1) == kept(i)) && vc.Implies(!out(i), kept(i+1) == kept(i)+1)
	}))
	vc.Invariant(func(v_i int) bool { return len(s.Routes) == len(old)+kept(v_i) && kept(v_i) >= 0 })
	vc.Invariant(func(v_i int) bool {
		return vc.Forall(0, len(old), func(i int) bool { return vc.Same(s.Routes[i], old[i]) })
	})
	vc.Invariant(func(v_i int) bool {
		return vc.Forall(0, v_i, func(i int) bool { return kept(i) >= 0 && kept(i+1) <= kept(v_i) })
	})
	vc.Invariant(func(v_i int) bool {
		return vc.Forall(0, v_i, func(i int) bool { return out(i) || zzIs(&s.Routes[len(old)+kept(i)], &rs[i]) })
	})
	vc.Invariant(func(v_i int, f_r gin.RouteInfo) bool {
		return vc.Forall(0, v_i, func(i int) bool { return !deny[i](f_r.Path) })
	})
	err := CreateRoutes(router)(s)
	now := s.Routes
	vc.Ensures("the previous routes", len(now) >= len(old) && vc.Forall(0, len(old), func(i int) bool { return vc.Same(now[i], old[i]) }))
	vc.Ensures("one entry for each route not denied", err != nil || len(now) == len(old)+kept(len(rs)))
	vc.Ensures("in registration order, with their own method, path and handler", err != nil || vc.Forall(0, len(rs), func(i int) bool {
		return out(i) || kept(i) >= 0 && kept(i) < kept(len(rs)) && zzIs(&now[len(old)+kept(i)], &rs[i])
	}))
	want.Routes = s.Routes
	vc.Ensures("service otherwise unchanged", vc.Same(*s, want))
}
