package json

import (
	"path"
	"strings"

	"github.com/ls6-events/astra"
	vc "github.com/ls6-events/astra/zzvc"
)

func zzMayWrite(p string) bool { return vc.Ghost("mayWrite", p) }

// Generating twice, because a generator is kept in the service and may run again.
//
//vc:lemma
//vc:noreplay
//vc:prop C11
func zzGenerateJSON(filePath string, s *astra.Service) {
	vc.Requires(s != nil)
	name := filePath
	if !strings.HasSuffix(name, ".json") {
		name += ".json"
	}
	vc.Requires(zzMayWrite(path.Join(s.WorkDir, name)))
	g := Generate(filePath)
	g(s)
	g(s)
	vc.Ensures("writes only the configured file", true)
}
