package astra

import (
	"regexp"

	vc "github.com/ls6-events/astra/zzvc"
)

//vc:contract (*Service).AddRoute
//vc:prop C01
func zzAddRoute(s *Service, r Route) {
	vc.Requires(s != nil)
	vc.Modifies(s)
	vc.ModifiesSpare(s.Routes)
	want, old := *s, vc.Snap(s.Routes)
	s.AddRoute(r)
	now := s.Routes
	vc.Ensures("one more route", len(now) == len(old)+1)
	vc.Ensures("the previous routes", vc.Forall(0, len(old), func(i int) bool { return vc.Same(now[i], old[i]) }))
	vc.Ensures("then the new one", vc.Same(now[len(old)], r))
	want.Routes = s.Routes
	vc.Ensures("service otherwise unchanged", vc.Same(*s, want))
}

//vc:contract (*Service).ReplaceRoute
//vc:prop C01
func zzReplaceRoute(s *Service, r Route) {
	vc.Requires(s != nil)
	vc.Modifies(s)
	vc.ModifiesElems(s.Routes)
	want, old := *s, vc.Snap(s.Routes)
	is := func(i int) bool { return old[i].Path == r.Path && old[i].Method == r.Method }
	vc.Invariant(func(v_i int) bool { return vc.Forall(0, v_i, func(j int) bool { return !is(j) }) })
	s.ReplaceRoute(r)
	now := s.Routes
	first := func(i int) bool { return is(i) && vc.Forall(0, i, func(j int) bool { return !is(j) }) }
	vc.Ensures("as many routes", len(now) == len(old))
	vc.Ensures("the first entry with its path and method is replaced", vc.Forall(0, len(old), func(i int) bool { return !first(i) || vc.Same(now[i], r) }))
	vc.Ensures("no other entry changes", vc.Forall(0, len(old), func(i int) bool { return first(i) || vc.Same(now[i], old[i]) }))
	want.Routes = s.Routes
	vc.Ensures("service otherwise unchanged", vc.Same(*s, want))
}

func zzOneMore(s *Service, old []func(string) bool, want Service) bool {
	now := s.PathDenyList
	want.PathDenyList = now
	return len(now) == len(old)+1 && vc.Forall(0, len(old), func(i int) bool { return vc.SameFunc(now[i], old[i]) }) && vc.Same(*s, want)
}

//vc:lemma
//vc:prop C01
func zzDenyExact(s *Service, rule, p string) {
	vc.Requires(s != nil)
	vc.Modifies(s)
	vc.ModifiesSpare(s.PathDenyList)
	want, old := *s, vc.Snap(s.PathDenyList)
	WithPathDenyList(rule)(s)
	vc.Ensures("one rule appended, nothing else", zzOneMore(s, old, want))
	vc.Ensures("matches exactly that path", s.PathDenyList[len(old)](p) == (p == rule))
}

//vc:lemma
//vc:prop C01
func zzDenyRegexp(s *Service, rule *regexp.Regexp, p string) {
	vc.Requires(s != nil && rule != nil)
	vc.Modifies(s)
	vc.ModifiesSpare(s.PathDenyList)
	want, old := *s, vc.Snap(s.PathDenyList)
	WithPathDenyListRegex(rule)(s)
	vc.Ensures("one rule appended, nothing else", zzOneMore(s, old, want))
	vc.Ensures("matches what the expression matches", s.PathDenyList[len(old)](p) == rule.MatchString(p))
}

//vc:lemma
//vc:prop C01
func zzDenyFunc(s *Service, rule func(string) bool, p string) {
	vc.Requires(s != nil && rule != nil)
	vc.Modifies(s)
	vc.ModifiesSpare(s.PathDenyList)
	want, old := *s, vc.Snap(s.PathDenyList)
	WithPathDenyListFunc(rule)(s)
	vc.Ensures("one rule appended, nothing else", zzOneMore(s, old, want))
	vc.Ensures("is the function", vc.SameFunc(s.PathDenyList[len(old)], rule))
}
