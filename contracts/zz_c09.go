package astra

import (
	"path"

	vc "github.com/ls6-events/astra/zzvc"
)

// Calls of inputs and outputs are recorded: the i-th call is of which function, with which service, and returned what.
var zzCalls int

func zzCallFn(i int) ServiceFunction { return vc.GhostVal[ServiceFunction]("callFn", i) }
func zzCallArg(i int) *Service       { return vc.GhostVal[*Service]("callArg", i) }
func zzCallErr(i int) error          { return vc.GhostVal[error]("callErr", i) }

// An input or output may change the service, except for its inputs, outputs, directories and modes.
//
//vc:opaque astra.ServiceFunction
func zzServiceFunction(f ServiceFunction, s *Service) error {
	err := vc.Any[error]()
	zzCalls++
	vc.Assume("recording of the calls of inputs and outputs", vc.SameFunc(zzCallFn(zzCalls), f) && zzCallArg(zzCalls) == s && zzCallErr(zzCalls) == err)
	o := *s
	*s = vc.Any[Service]()
	s.Inputs, s.Outputs, s.WorkDir, s.CacheEnabled, s.CachePath, s.CLIMode = o.Inputs, o.Outputs, o.WorkDir, o.CacheEnabled, o.CachePath, o.CLIMode
	return err
}

// zzKeeps: what stages leave alone.
func zzKeeps(s *Service, o Service) bool {
	return vc.SameSlice(s.Inputs, o.Inputs) && vc.SameSlice(s.Outputs, o.Outputs) && s.WorkDir == o.WorkDir && s.CacheEnabled == o.CacheEnabled && s.CachePath == o.CachePath && s.CLIMode == o.CLIMode
}

// Stages are recorded in the same way.
const (
	zzStageSetup = iota + 1
	zzStageCreate
	zzStageParse
	zzStageClean
	zzStageGenerate
	zzStageTeardown
)

var zzStages int

func zzStageAt(i int) int    { return vc.GhostVal[int]("stageAt", i) }
func zzStageErr(i int) error { return vc.GhostVal[error]("stageErr", i) }
func zzStage(id int, err error) {
	zzStages++
	vc.Define(zzStageAt(zzStages) == id && zzStageErr(zzStages) == err)
}

// zzCached: a stage that succeeded with caching on ended by writing the cache; with caching off it wrote none.
func zzCached(s *Service, err error, creates, writes int) bool {
	if !s.CacheEnabled {
		return zzCreates == creates && zzWrites == writes
	}
	return err != nil || zzCreates == creates+1 && zzCreateLast == zzCacheFile(s) && zzCreateAt == zzCalls && zzWrites > writes
}

// zzRan: functions fn(0) to fn(n-1) were called once each, in order, with the service, up to the first error, which was returned.
func zzRan(s *Service, n0, n int, fn func(i int) ServiceFunction, err error) bool {
	k := zzCalls - n0
	return k >= 0 && k <= n && vc.Forall(0, k, func(i int) bool {
		return vc.SameFunc(zzCallFn(n0+1+i), fn(i)) && zzCallArg(n0+1+i) == s && (zzCallErr(n0+1+i) == nil || i == k-1)
	}) && (k == n && (k == 0 || zzCallErr(n0+k) == nil) || k > 0 && err != nil && err == zzCallErr(n0+k))
}

//vc:contract (*Service).CreateRoutes
//vc:noreplay
//vc:prop C09
func zzCreateRoutes(s *Service) {
	vc.Requires(zzOwns(s))
	vc.Modifies(s)
	in := s.Inputs
	vc.Requires(vc.Forall(0, len(in), func(i int) bool { return in[i].CreateRoutes != nil }))
	o, n0, c0, w0, f0 := *s, zzCalls, zzCreates, zzWrites, zzFails
	vc.Invariant(func(v_i int) bool {
		return zzCalls == n0+v_i && vc.Forall(0, v_i, func(i int) bool {
			return vc.SameFunc(zzCallFn(n0+1+i), in[i].CreateRoutes) && zzCallArg(n0+1+i) == s && zzCallErr(n0+1+i) == nil
		})
	})
	vc.Invariant(func() bool { return zzKeeps(s, o) })
	err := s.CreateRoutes()
	vc.Ensures("every input once, in order, up to the first error", zzRan(s, n0, len(in), func(i int) ServiceFunction { return in[i].CreateRoutes }, err))
	vc.Ensures("cache", zzCached(s, err, c0, w0))
	vc.Ensures("failures are reported", err != nil || zzFails == f0)
	vc.Ensures("inputs, outputs, directories and modes are kept", zzKeeps(s, o))
	zzStage(zzStageCreate, err)
}

//vc:contract (*Service).ParseRoutes
//vc:noreplay
//vc:prop C09
func zzParseRoutes(s *Service) {
	vc.Requires(zzOwns(s))
	vc.Modifies(s)
	in := s.Inputs
	vc.Requires(vc.Forall(0, len(in), func(i int) bool { return in[i].ParseRoutes != nil }))
	o, n0, c0, w0, f0 := *s, zzCalls, zzCreates, zzWrites, zzFails
	vc.Invariant(func(v_i int) bool {
		return zzCalls == n0+v_i && vc.Forall(0, v_i, func(i int) bool {
			return vc.SameFunc(zzCallFn(n0+1+i), in[i].ParseRoutes) && zzCallArg(n0+1+i) == s && zzCallErr(n0+1+i) == nil
		})
	})
	vc.Invariant(func() bool { return zzKeeps(s, o) })
	err := s.ParseRoutes()
	vc.Ensures("every input once, in order, up to the first error", zzRan(s, n0, len(in), func(i int) ServiceFunction { return in[i].ParseRoutes }, err))
	vc.Ensures("cache", zzCached(s, err, c0, w0))
	vc.Ensures("failures are reported", err != nil || zzFails == f0)
	vc.Ensures("inputs, outputs, directories and modes are kept", zzKeeps(s, o))
	zzStage(zzStageParse, err)
}

//vc:contract (*Service).Generate
//vc:noreplay
//vc:prop C09
func zzGenerate(s *Service) {
	vc.Requires(zzOwns(s))
	vc.Modifies(s)
	out := s.Outputs
	vc.Requires(vc.Forall(0, len(out), func(i int) bool { return out[i].Generate != nil }))
	o, n0, c0, w0, f0 := *s, zzCalls, zzCreates, zzWrites, zzFails
	vc.Invariant(func(v_i int) bool {
		return zzCalls == n0+v_i && vc.Forall(0, v_i, func(i int) bool {
			return vc.SameFunc(zzCallFn(n0+1+i), out[i].Generate) && zzCallArg(n0+1+i) == s && zzCallErr(n0+1+i) == nil
		})
	})
	vc.Invariant(func() bool { return zzKeeps(s, o) })
	err := s.Generate()
	vc.Ensures("every output once, in order, up to the first error", zzRan(s, n0, len(out), func(i int) ServiceFunction { return out[i].Generate }, err))
	vc.Ensures("cache", zzCached(s, err, c0, w0))
	vc.Ensures("failures are reported", err != nil || zzFails == f0)
	vc.Ensures("inputs, outputs, directories and modes are kept", zzKeeps(s, o))
	zzStage(zzStageGenerate, err)
}

//vc:contract (*Service).Setup
//vc:noreplay
//vc:prop C09 C11
func zzSetup(s *Service) {
	vc.Requires(zzOwns(s) && zzOwnsAfterSetup(s))
	vc.Modifies(s)
	o, c0, w0, f0 := *s, zzCreates, zzWrites, zzFails
	err := s.Setup()
	c := 0
	if s.CacheEnabled && err == nil {
		c = 1
	}
	_ = w0
	want := o
	if o.WorkDir == "" && (err == nil || s.WorkDir == zzCwd()) {
		want.WorkDir = zzCwd()
	}
	vc.Ensures("notes the work directory when it has none, and changes nothing else", vc.Same(*s, want))
	vc.Ensures("ends with the cache when caching is on", c == 0 || zzCreates > c0 && zzCreateLast == zzCacheFile(s) && zzWrites > w0)
	vc.Ensures("writes no cache when caching is off", s.CacheEnabled || zzCreates == c0 || zzCreateLast == path.Join(zzAstraDir(o.WorkDir), ".gitignore"))
	vc.Ensures("failures are reported", err != nil || zzFails == f0)
	zzStage(zzStageSetup, err)
}

// zzOwnsAfterSetup: the same as zzOwns, for the work directory that setup may note.
func zzOwnsAfterSetup(s *Service) bool {
	if s.WorkDir != "" {
		return true
	}
	c := s.CachePath
	if c == "" {
		c = path.Join(zzAstraDir(zzCwd()), "cache.json")
	}
	return zzOwnsDir(zzCwd()) && zzMayDelete(c) && zzMayWrite(c)
}

// zzRanStages: the stages first, first+1, ..., first+n-1 ran once each, in this order, up to the first error, which was returned.
func zzRanStages(n0, first, n int, err error) bool {
	k := zzStages - n0
	return k > 0 && k <= n && vc.Forall(0, n, func(i int) bool {
		return i >= k || zzStageAt(n0+1+i) == first+i && (zzStageErr(n0+1+i) == nil || i == k-1)
	}) && err == zzStageErr(n0+k) && (k == n || err != nil)
}

func zzCallable(s *Service) bool {
	in, out := s.Inputs, s.Outputs
	return vc.Forall(0, len(in), func(i int) bool { return in[i].CreateRoutes != nil && in[i].ParseRoutes != nil }) &&
		vc.Forall(0, len(out), func(i int) bool { return out[i].Generate != nil })
}

//vc:contract (*Service).SetupParse
//vc:noreplay
//vc:prop C09
func zzSetupParse(s *Service) {
	vc.Requires(zzOwns(s) && zzOwnsAfterSetup(s) && zzCallable(s))
	vc.Modifies(s)
	o, n0, f0 := *s, zzStages, zzFails
	refuse := len(s.Inputs) == 0 || len(s.Outputs) == 0
	err := s.SetupParse()
	vc.Ensures("refuses to start without inputs or outputs", !refuse || err != nil && zzStages == n0)
	vc.Ensures("sets up and creates routes, up to the first error", refuse || zzRanStages(n0, zzStageSetup, 2, err))
	vc.Ensures("failures are reported", err != nil || zzFails == f0)
	want := o
	want.WorkDir = s.WorkDir
	vc.Ensures("inputs, outputs and modes are kept", zzKeeps(s, want) && (s.WorkDir == o.WorkDir || o.WorkDir == "" && s.WorkDir == zzCwd()))
}

//vc:contract (*Service).CompleteParse
//vc:noreplay
//vc:prop C09
func zzCompleteParse(s *Service) {
	vc.Requires(zzOwns(s) && zzCallable(s))
	vc.Modifies(s)
	var f Field
	var p []Param
	var b []BodyParam
	var r []ReturnType
	vc.ModifiesAny(f.StructFields, p, b, r, s.Components)
	o, n0 := *s, zzStages
	refuse := len(s.Inputs) == 0 || len(s.Outputs) == 0
	err := s.CompleteParse()
	vc.Ensures("refuses to start without inputs or outputs", !refuse || err != nil && zzStages == n0)
	vc.Ensures("parses routes, cleans, generates and tears down, up to the first error", refuse || zzRanStages(n0, zzStageParse, 4, err))
	vc.Ensures("inputs, outputs, directories and modes are kept", zzKeeps(s, o))
}

//vc:contract (*Service).Parse
//vc:noreplay
//vc:prop C09
func zzParse(s *Service) {
	vc.Requires(zzOwns(s) && zzOwnsAfterSetup(s) && zzCallable(s))
	vc.Modifies(s)
	var f Field
	var p []Param
	var b []BodyParam
	var r []ReturnType
	vc.ModifiesAny(f.StructFields, p, b, r, s.Components)
	n0 := zzStages
	refuse := len(s.Inputs) == 0 || len(s.Outputs) == 0
	err := s.Parse()
	vc.Ensures("refuses to start without inputs or outputs", !refuse || err != nil && zzStages == n0)
	vc.Ensures("all stages, in order, up to the first error", refuse || zzRanStages(n0, zzStageSetup, 6, err))
}
