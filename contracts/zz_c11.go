package astra

import (
	"path"

	vc "github.com/ls6-events/astra/zzvc"
)

func zzAstraDir(dir string) string { return path.Join(dir, ".astra") }
func zzMainDir(dir string) string  { return path.Join(zzAstraDir(dir), "astramain") }

func zzCacheFile(s *Service) string {
	if s.CachePath != "" {
		return s.CachePath
	}
	return path.Join(zzAstraDir(s.WorkDir), "cache.json")
}

// zzOwnsDir: in a work directory, astra owns .astra and the temporary main package inside it.
func zzOwnsDir(dir string) bool {
	a, m := zzAstraDir(dir), zzMainDir(dir)
	return zzMayDelete(a) && zzMayWrite(a) && zzMayWrite(path.Join(a, ".gitignore")) && zzMayDelete(m) && zzMayWrite(m) &&
		vc.ForallStr(func(n string) bool { return zzMayWrite(path.Join(m, n)) })
}

func zzOwnsCache(s *Service) bool { return zzMayDelete(zzCacheFile(s)) && zzMayWrite(zzCacheFile(s)) }

// zzOwns is everything the library may delete or write, apart from temporary and final output.
func zzOwns(s *Service) bool { return s != nil && zzOwnsDir(s.WorkDir) && zzOwnsCache(s) }

//vc:contract (*Service).getAstraDirPath
//vc:noreplay
//vc:prop C11
func zzGetAstraDirPath(s *Service) {
	vc.Requires(s != nil)
	vc.Ensures("the .astra directory of the work directory", s.getAstraDirPath() == zzAstraDir(s.WorkDir))
}

//vc:contract (*Service).setupAstraDir
//vc:noreplay
//vc:prop C11
func zzSetupAstraDir(s *Service) {
	vc.Requires(s != nil && zzOwnsDir(s.WorkDir))
	d, f, c, w := zzDels, zzFails, zzCreates, zzWrites
	err := s.setupAstraDir()
	vc.Ensures("deletes nothing", zzDels == d)
	vc.Ensures("failures are reported", err != nil || zzFails == f)
	vc.Ensures("creates nothing but .gitignore", zzWrites >= w && (zzCreates == c || zzCreates == c+1 && zzCreateLast == path.Join(zzAstraDir(s.WorkDir), ".gitignore")))
}

//vc:contract (*Service).setupGitIgnore
//vc:noreplay
//vc:prop C11
func zzSetupGitIgnore(s *Service) {
	vc.Requires(s != nil && zzOwnsDir(s.WorkDir))
	d, f, c, w := zzDels, zzFails, zzCreates, zzWrites
	err := s.setupGitIgnore()
	vc.Ensures("deletes nothing", zzDels == d)
	vc.Ensures("failures are reported", err != nil || zzFails == f)
	vc.Ensures("creates nothing but .gitignore", zzWrites >= w && (zzCreates == c || zzCreates == c+1 && zzCreateLast == path.Join(zzAstraDir(s.WorkDir), ".gitignore")))
}

//vc:contract (*Service).cleanupAstraDir
//vc:noreplay
//vc:prop C11
func zzCleanupAstraDir(s *Service) {
	vc.Requires(s != nil && zzOwnsDir(s.WorkDir))
	d := zzDels
	err := s.cleanupAstraDir()
	vc.Ensures("deletes the directory", zzDels == d+1 && zzDelLast == zzAstraDir(s.WorkDir))
	vc.Ensures("reports failure", (err != nil) == zzDelErr)
}

//vc:contract (*Service).SetupTempOutputDir
//vc:noreplay
//vc:prop C11 C18
func zzSetupTempOutputDir(s *Service, name string) {
	vc.Requires(s != nil)
	dir := path.Join(zzAstraDir(s.WorkDir), name)
	vc.Requires(zzMayWrite(dir))
	d, m := zzDels, zzMade
	r, err := s.SetupTempOutputDir(name)
	vc.Ensures("deletes nothing", zzDels == d)
	vc.Ensures("creates and returns the directory", err != nil || r == dir && zzMade == m+1 && zzMadeLast == dir)
	vc.Ensures("nothing on failure", err == nil || r == "")
}

//vc:contract (*Service).MoveTempOutputDir
//vc:noreplay
//vc:prop C11 C18
func zzMoveTempOutputDir(s *Service, name, out string) {
	vc.Requires(s != nil)
	from, to := path.Join(zzAstraDir(s.WorkDir), name), path.Join(s.WorkDir, out)
	vc.Requires(zzMayDelete(from) && zzMayDelete(to) && zzMayWrite(to))
	d, n := zzDels, zzRenames
	err := s.MoveTempOutputDir(name, out)
	vc.Ensures("deletes only what the output replaces", zzDels == d || zzDels == d+1 && zzDelLast == to)
	vc.Ensures("reports a failed deletion", zzDels == d || !zzDelErr || err != nil)
	vc.Ensures("moves the directory into place", err != nil || zzRenames == n+1 && zzRenameFrom == from && zzRenameTo == to)
	ZZMoves++
	ZZMoveFrom, ZZMoveTo, ZZMoveErr = from, to, err
}

//vc:contract (*Service).setupTempMainPackage
//vc:noreplay
//vc:prop C11
func zzSetupTempMainPackage(s *Service) {
	vc.Requires(s != nil && zzOwnsDir(s.WorkDir))
	vc.Modifies(s)
	want := *s
	d, c, w, f := zzDels, zzCreates, zzWrites, zzFails
	vc.Invariant(func() bool { return zzFails == f && zzCreates == c && zzWrites == w })
	err := s.setupTempMainPackage()
	want.tempMainPackageName = s.tempMainPackageName
	vc.Ensures("service otherwise unchanged", vc.Same(*s, want))
	vc.Ensures("deletes only an old temporary main package", zzDels == d || zzDels == d+1 && zzDelLast == zzMainDir(s.WorkDir))
	vc.Ensures("failures are reported", (err != nil || zzFails == f) && zzCreates == c && zzWrites == w)
}

//vc:contract (*Service).cleanupTempMainPackage
//vc:noreplay
//vc:prop C11
func zzCleanupTempMainPackage(s *Service) {
	vc.Requires(s != nil && zzOwnsDir(s.WorkDir))
	d := zzDels
	err := s.cleanupTempMainPackage()
	m := zzMainDir(s.WorkDir)
	vc.Ensures("deletes only the temporary main package", zzDels == d || zzDels == d+1 && zzDelLast == m)
	vc.Ensures("deletes it when it is there", zzDels == d+1 || zzMissLast == m)
	vc.Ensures("reports failure", zzDels == d || (err != nil) == zzDelErr)
}

//vc:contract (*Service).GetMainPackageName
//vc:noreplay
//vc:prop C11
func zzGetMainPackageName(s *Service) {
	vc.Requires(s != nil && zzOwnsDir(s.WorkDir))
	vc.Modifies(s)
	want, c, w, f := *s, zzCreates, zzWrites, zzFails
	n, err := s.GetMainPackageName()
	vc.Ensures("computed once", want.tempMainPackageName == "" || err == nil && n == want.tempMainPackageName && s.tempMainPackageName == n)
	vc.Ensures("failures are reported", (err != nil || zzFails == f) && zzCreates == c && zzWrites == w)
	vc.Ensures("the name", err != nil || n == s.tempMainPackageName)
	want.tempMainPackageName = s.tempMainPackageName
	vc.Ensures("service otherwise unchanged", vc.Same(*s, want))
}

//vc:contract (*Service).Cache
//vc:noreplay
//vc:prop C10 C11
func zzCache(s *Service) {
	vc.Requires(s != nil && zzOwnsCache(s))
	d, f, c, w := zzDels, zzFails, zzCreates, zzWrites
	err := s.Cache()
	vc.Ensures("failures are reported", err != nil || zzFails == f)
	vc.Ensures("writes the cache", err != nil || zzCreates == c+1 && zzCreateLast == zzCacheFile(s) && zzCreateAt == zzCalls && zzWrites > w)
	vc.Ensures("the cache holds the service, in the format of its extension", err != nil || zzEncFormat(zzWriteLast) == zzCacheFormat(zzCacheFile(s)) && zzEncService(zzWriteLast) != nil && vc.Same(*zzEncService(zzWriteLast), *s))
	vc.Ensures("deletes only the old cache", zzDels == d || zzDels == d+1 && zzDelLast == zzCacheFile(s))
}

//vc:contract (*Service).ClearCache
//vc:noreplay
//vc:prop C11
func zzClearCache(s *Service) {
	vc.Requires(s != nil && zzOwnsCache(s))
	d, f, cr, w := zzDels, zzFails, zzCreates, zzWrites
	err := s.ClearCache()
	c := zzCacheFile(s)
	vc.Ensures("deletes only the cache", zzDels == d || zzDels == d+1 && zzDelLast == c)
	vc.Ensures("deletes it when it is there", zzDels == d+1 || zzMissLast == c)
	vc.Ensures("reports failure", zzDels == d || (err != nil) == zzDelErr)
	vc.Ensures("failures are reported", (err != nil || zzFails == f) && zzCreates == cr && zzWrites == w)
}

//vc:contract (*Service).Teardown
//vc:noreplay
//vc:prop C09 C11
func zzTeardown(s *Service) {
	vc.Requires(s != nil && zzOwnsDir(s.WorkDir))
	d, c0, w0 := zzDels, zzCreates, zzWrites
	err := s.Teardown()
	a, m := zzAstraDir(s.WorkDir), zzMainDir(s.WorkDir)
	vc.Ensures("a failed deletion is not reported", err == nil)
	keep := s.CacheEnabled || s.CLIMode != CLIModeNone
	vc.Ensures("removes .astra when caching is off and no CLI mode is set", keep || zzDels == d+1 && zzDelLast == a)
	vc.Ensures("otherwise removes only the temporary main package", !keep || zzDels == d || zzDels == d+1 && zzDelLast == m)
	vc.Ensures("otherwise removes it when it is there", !keep || zzDels == d+1 || zzMissLast == m)
	vc.Ensures("nothing is created or called", zzCreates == c0 && zzWrites == w0)
	zzStage(zzStageTeardown, err)
}
