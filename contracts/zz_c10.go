package astra

import (
	"encoding/json"
	"io"
	"os"
	"strings"

	vc "github.com/ls6-events/astra/zzvc"
	"gopkg.in/yaml.v3"
)

// Reading and decoding: which file bytes and readers come from, and what the last decoding was: from which file, in which format, and of
// which service (an arbitrary one).
var (
	zzDecodes   int
	zzDecFile   string
	zzDecFormat string
	zzDecoded   *Service
)

func zzFileOf(f *os.File) string        { return vc.GhostVal[string]("fileOf", f) }
func zzBytesOf(b []byte) string         { return vc.GhostVal[string]("bytesOf", vc.Ref(b)) }
func zzJSONFrom(d *json.Decoder) string { return vc.GhostVal[string]("jsonFrom", d) }
func zzYAMLFrom(d *yaml.Decoder) string { return vc.GhostVal[string]("yamlFrom", d) }

func zzDecode(format, file string, v any) error {
	err := zzMayFail()
	zzDecodes++
	zzDecFile, zzDecFormat = file, format
	if s, ok := v.(*Service); ok {
		o := *s
		*s = vc.Any[Service]()
		s.tempMainPackageName, s.fullTypeMapping, s.PathDenyList, s.CustomFuncs, s.WorkDir = o.tempMainPackageName, o.fullTypeMapping, o.PathDenyList, o.CustomFuncs, o.WorkDir
		if format == "json" {
			s.Log, s.CacheEnabled, s.CachePath, s.CLIMode = o.Log, o.CacheEnabled, o.CachePath, o.CLIMode
		}
		d := *s
		zzDecoded = &d
	}
	return err
}

//vc:model encoding/json.NewDecoder
func zzJSONNewDecoder(r io.Reader) *json.Decoder {
	d := new(json.Decoder)
	vc.Assume("recording of the decoders", zzJSONFrom(d) == zzReaderOf(r))
	return d
}

//vc:model (*encoding/json.Decoder).Decode
func zzJSONDecode(d *json.Decoder, v any) error { return zzDecode("json", zzJSONFrom(d), v) }

//vc:model encoding/json.Unmarshal
func zzJSONUnmarshal(b []byte, v any) error { return zzDecode("json", zzBytesOf(b), v) }

//vc:model gopkg.in/yaml.v3.NewDecoder
func zzYAMLNewDecoder(r io.Reader) *yaml.Decoder {
	d := new(yaml.Decoder)
	vc.Assume("recording of the decoders", zzYAMLFrom(d) == zzReaderOf(r))
	return d
}

//vc:model (*gopkg.in/yaml.v3.Decoder).Decode
func zzYAMLDecode(d *yaml.Decoder, v any) error { return zzDecode("yaml", zzYAMLFrom(d), v) }

//vc:model gopkg.in/yaml.v3.Unmarshal
func zzYAMLUnmarshal(b []byte, v any) error { return zzDecode("yaml", zzBytesOf(b), v) }

func zzReaderOf(r io.Reader) string {
	if f, ok := r.(*os.File); ok {
		return zzFileOf(f)
	}
	return vc.GhostVal[string]("readerOf", r)
}

// zzFormat is the format of a cache file.
func zzFormat(p string) string {
	if strings.HasSuffix(p, ".json") {
		return "json"
	}
	if strings.HasSuffix(p, ".yaml") || strings.HasSuffix(p, ".yml") {
		return "yaml"
	}
	return ""
}

// zzCacheFormat: a cache is JSON unless it is named otherwise.
func zzCacheFormat(p string) string {
	if zzFormat(p) == "yaml" {
		return "yaml"
	}
	return "json"
}

// zzRestored: s is o with what the cache holds replaced by what was decoded.
func zzRestored(s *Service, o Service) bool {
	d := *zzDecoded
	if s.CustomTypeMapping == nil || d.CustomTypeMapping != nil && !vc.SameMap(s.CustomTypeMapping, d.CustomTypeMapping) || d.CustomTypeMapping == nil && len(s.CustomTypeMapping) != 0 {
		return false
	}
	o.Inputs, o.Outputs, o.Config, o.Routes, o.Components = d.Inputs, d.Outputs, d.Config, d.Routes, d.Components
	o.CustomTypeMapping, o.fullTypeMapping = s.CustomTypeMapping, nil
	return vc.Same(*s, o)
}

//vc:contract (*Service).LoadCacheFromCustomPath
//vc:noreplay
//vc:prop C10
func zzLoadCacheFromCustomPath(s *Service, p string) {
	vc.Requires(s != nil)
	vc.Modifies(s)
	o, n := *s, zzDecodes
	err := s.LoadCacheFromCustomPath(p)
	vc.Ensures("an unknown extension is an error", err != nil || zzFormat(p) != "")
	vc.Ensures("nothing changes on failure", err == nil || vc.Same(*s, o))
	vc.Ensures("the file is decoded once, in the format of its extension", err != nil || zzDecodes == n+1 && zzDecFile == p && zzDecFormat == zzFormat(p) && zzDecoded != nil)
	vc.Ensures("everything decoded is restored, nothing else changes", err != nil || zzRestored(s, o))
}

//vc:contract (*Service).LoadCache
//vc:noreplay
//vc:prop C10
func zzLoadCache(s *Service) {
	vc.Requires(s != nil)
	vc.Modifies(s)
	o, n := *s, zzDecodes
	err := s.LoadCache()
	vc.Ensures("nothing changes on failure", err == nil || vc.Same(*s, o))
	vc.Ensures("the cache file is decoded", err != nil || zzDecodes == n+1 && zzDecFile == zzCacheFile(&o) && zzDecFormat == zzFormat(zzDecFile) && zzDecoded != nil)
	vc.Ensures("everything decoded is restored, nothing else changes", err != nil || zzRestored(s, o))
}

// zzServiceEncoded: what the cache is to hold is in what the encoders write.
//
//vc:lemma
//vc:prop C10
func zzServiceEncoded(s Service) {
	const skip = "Service.Log,Service.tempMainPackageName,Service.WorkDir,Service.CacheEnabled,Service.CachePath,Service.CLIMode,Service.PathDenyList,Service.CustomFuncs,Service.fullTypeMapping"
	vc.Ensures("JSON keeps every field", vc.Encoded(&s, "json", skip))
	vc.Ensures("YAML keeps every field", vc.Encoded(&s, "yaml", skip))
}
