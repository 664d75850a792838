package astra

import (
	"io/fs"
	"os"

	vc "github.com/ls6-events/astra/zzvc"
)

// The file system, as far as the contracts need it: what may be deleted and written is a relation that only preconditions give, every
// operation may fail, and the deletions are counted.

func zzMayDelete(p string) bool { return vc.Ghost("mayDelete", p) }
func zzMayWrite(p string) bool  { return vc.Ghost("mayWrite", p) }

var (
	zzDels     int    // number of deletions
	zzDelLast  string // what was deleted last
	zzMissLast string // what was last found missing
	zzDelErr   bool   // the last deletion failed

	zzFails      int    // number of failed operations
	zzCreates    int    // number of files created and opened for writing
	zzCreateLast string // what was created last
	zzCreateAt   int    // how many inputs and outputs had been called then
	zzWrites     int    // number of writes into open files
	zzWriteLast  []byte // what was written last

	zzMade     int    // number of directories created
	zzMadeLast string // what was created last

	zzRenames    int    // number of renames
	zzRenameFrom string // of what
	zzRenameTo   string // and to what, last

	ZZMoves    int    // number of temporary output directories moved into place
	ZZMoveFrom string // which one
	ZZMoveTo   string // and to where, last
	ZZMoveErr  error  // and with what outcome
)

// zzMayFail is the result of an operation that can fail.
func zzMayFail() error {
	err := vc.Any[error]()
	if err != nil {
		zzFails++
	}
	return err
}

//vc:model os.RemoveAll
func zzOsRemoveAll(p string) error {
	vc.Assert("deletes only what is astra's own", zzMayDelete(p))
	err := zzMayFail()
	zzDels++
	zzDelLast = p
	zzDelErr = err != nil
	return err
}

//vc:model os.Remove
func zzOsRemove(p string) error { return zzOsRemoveAll(p) }

//vc:model os.Stat
func zzOsStat(p string) (os.FileInfo, error) {
	err := vc.Any[error]()
	if err != nil {
		zzMissLast = p
	}
	return vc.Any[os.FileInfo](), err
}

//vc:model os.Lstat
func zzOsLstat(p string) (os.FileInfo, error) { return zzOsStat(p) }

//vc:model os.Mkdir
func zzOsMkdir(p string, m os.FileMode) error {
	vc.Assert("creates only what is astra's own", zzMayWrite(p))
	err := zzMayFail()
	if err == nil {
		zzMade++
		zzMadeLast = p
	}
	return err
}

//vc:model os.MkdirAll
func zzOsMkdirAll(p string, m os.FileMode) error { return zzOsMkdir(p, m) }

//vc:model os.WriteFile
func zzOsWriteFile(p string, b []byte, m os.FileMode) error {
	vc.Assert("writes only what is astra's own", zzMayWrite(p))
	return zzMayFail()
}

//vc:model os.Create
func zzOsCreate(p string) (*os.File, error) {
	vc.Assert("creates only what is astra's own", zzMayWrite(p))
	zzCreates++
	zzCreateLast = p
	zzCreateAt = zzCalls
	return zzFile()
}

//vc:model os.OpenFile
func zzOsOpenFile(p string, flag int, m os.FileMode) (*os.File, error) {
	vc.Assert("opens for writing only what is astra's own", flag == os.O_RDONLY || zzMayWrite(p))
	return zzFile()
}

//vc:model os.Open
func zzOsOpen(p string) (*os.File, error) {
	f, err := zzFile()
	if err == nil {
		vc.Assume("recording of the files opened", zzFileOf(f) == p)
	}
	return f, err
}

func zzFile() (*os.File, error) {
	if err := zzMayFail(); err != nil {
		return nil, err
	}
	return new(os.File), nil
}

//vc:model os.Rename
func zzOsRename(from, to string) error {
	vc.Assert("moves only what is astra's own", zzMayDelete(from) && zzMayWrite(to))
	err := zzMayFail()
	if err == nil {
		zzRenames++
		zzRenameFrom, zzRenameTo = from, to
	}
	return err
}

//vc:model (*os.File).Write
func zzOsFileWrite(f *os.File, b []byte) (int, error) {
	zzWrites++
	zzWriteLast = b
	return vc.Any[int](), zzMayFail()
}

//vc:model (*os.File).WriteString
func zzOsFileWriteString(f *os.File, b string) (int, error) {
	zzWrites++
	return vc.Any[int](), zzMayFail()
}

//vc:model (*os.File).Close
func zzOsFileClose(f *os.File) error { return vc.Any[error]() }

//vc:model os.ReadFile
func zzOsReadFile(p string) ([]byte, error) {
	b := make([]byte, 1)
	if err := zzMayFail(); err != nil {
		return nil, err
	}
	vc.Assume("recording of the files read", zzBytesOf(b) == p)
	return b, nil
}

//vc:model os.ReadDir
func zzOsReadDir(p string) ([]fs.DirEntry, error) {
	r := vc.Any[[]fs.DirEntry]()
	vc.Assume("directory entries are not nil", vc.Forall(0, len(r), func(i int) bool { return r[i] != nil }))
	return r, zzMayFail()
}

//vc:model os.Getwd
func zzOsGetwd() (string, error) { return zzCwd(), zzMayFail() }

func zzCwd() string { return vc.GhostVal[string]("cwd") }

// Encodings of the service: in which format, and of which content.
func zzEncFormat(b []byte) string    { return vc.GhostVal[string]("encFormat", vc.Ref(b)) }
func zzEncService(b []byte) *Service { return vc.GhostVal[*Service]("encService", vc.Ref(b)) }

func zzEncode(format string, v any) ([]byte, error) {
	if err := zzMayFail(); err != nil {
		return nil, err
	}
	b := make([]byte, 1)
	switch s := v.(type) {
	case *Service:
		if s != nil {
			d := *s
			vc.Assume("recording of the encodings", zzEncFormat(b) == format && zzEncService(b) == &d)
		}
	case Service:
		d := s
		vc.Assume("recording of the encodings", zzEncFormat(b) == format && zzEncService(b) == &d)
	}
	return b, nil
}

//vc:model encoding/json.Marshal
func zzJSONMarshal(v any) ([]byte, error) { return zzEncode("json", v) }

//vc:model encoding/json.MarshalIndent
func zzJSONMarshalIndent(v any, a, b string) ([]byte, error) { return zzEncode("json", v) }

//vc:model gopkg.in/yaml.v3.Marshal
func zzYAMLMarshal(v any) ([]byte, error) { return zzEncode("yaml", v) }
