package checks

// what a function does to the file system: the index of its path argument
// plus one.
var mutators = map[string]int{
	"os.Create": 1, "os.WriteFile": 1, "io/ioutil.WriteFile": 1, "os.Mkdir": 1, "os.MkdirAll": 1, "os.OpenFile": 1,
	"os.Remove": 1, "os.RemoveAll": 1, "os.Rename": 1, "os.Symlink": 2, "os.Link": 2, "os.Truncate": 1, "os.Chmod": 1, "os.Chtimes": 1, "os.Chown": 1,
	"os.MkdirTemp": 1, "os.CreateTemp": 1, "io/ioutil.TempDir": 1, "io/ioutil.TempFile": 1,
}
