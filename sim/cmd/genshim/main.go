// genshim writes shim/<x>/z_gen.go: aliases for everything a standard package
// exports, except what the hand-written part of the shim defines and what is denied.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"
)

var pkgs = []struct{ dir, std, deny string }{
	{"os", "os", "Chdir Chmod Chown Chtimes Clearenv CopyFS Link Lchown Symlink Setenv Unsetenv StartProcess FindProcess Pipe NewFile DirFS OpenRoot OpenInRoot Root Getwd Executable Process ProcAttr ReadDir Readlink SameFile Process ProcessState ErrProcessDone"},
	{"net", "net", "FileConn FileListener FilePacketConn ListenIP ListenPacket ListenUDP ListenUnix ListenUnixgram ListenMulticastUDP DialIP DialUDP DialUnix LookupAddr LookupCNAME LookupHost LookupIP LookupMX LookupNS LookupPort LookupSRV LookupTXT Interfaces InterfaceAddrs InterfaceByIndex InterfaceByName ListenConfig Resolver DefaultResolver ResolveIPAddr ResolveUDPAddr ResolveUnixAddr UDPConn UnixConn UnixListener IPConn"},
	{"time", "time", ""},
	{"sync", "sync", "OnceFunc OnceValue OnceValues"},
	{"atomic", "sync/atomic", ""},
	{"log", "log", ""},
	{"ioutil", "io/ioutil", "ReadDir TempDir"},
	{"fmt", "fmt", ""},
	{"flag", "flag", ""},
	{"rand", "math/rand", ""},
}

func main() {
	root := os.Args[1]
	imp := importer.ForCompiler(token.NewFileSet(), "source", nil)
	for _, p := range pkgs {
		pk, err := imp.Import(p.std)
		if err != nil {
			panic(err)
		}
		dir := filepath.Join(root, "shim", p.dir)
		have := map[string]bool{}
		for _, d := range strings.Fields(p.deny) {
			have[d] = true
		}
		fs, _ := filepath.Glob(dir + "/*.go")
		for _, f := range fs {
			if strings.HasSuffix(f, "z_gen.go") {
				continue
			}
			fset := token.NewFileSet()
			af, err := parser.ParseFile(fset, f, nil, 0)
			if err != nil {
				panic(err)
			}
			for _, d := range af.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv == nil {
						have[d.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range d.Specs {
						switch s := s.(type) {
						case *ast.TypeSpec:
							have[s.Name.Name] = true
						case *ast.ValueSpec:
							for _, n := range s.Names {
								have[n.Name] = true
							}
						}
					}
				}
			}
		}
		var b bytes.Buffer
		base := p.std[strings.LastIndex(p.std, "/")+1:]
		fmt.Fprintf(&b, "// Code generated by cmd/genshim. DO NOT EDIT.\n\npackage %s\n\nimport std %q\n\n", base, p.std)
		n := 0
		for _, name := range pk.Scope().Names() {
			if !token.IsExported(name) || have[name] {
				continue
			}
			switch o := pk.Scope().Lookup(name).(type) {
			case *types.Const:
				fmt.Fprintf(&b, "const %s = std.%s\n", name, name)
				n++
			case *types.Var:
				fmt.Fprintf(&b, "var %s = std.%s\n", name, name)
				n++
			case *types.Func:
				if o.Type().(*types.Signature).TypeParams().Len() > 0 {
					continue
				}
				fmt.Fprintf(&b, "var %s = std.%s\n", name, name)
				n++
			case *types.TypeName:
				if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
					continue
				}
				fmt.Fprintf(&b, "type %s = std.%s\n", name, name)
				n++
			}
		}
		if n == 0 {
			os.Remove(dir + "/z_gen.go")
			continue
		}
		out, err := format.Source(b.Bytes())
		if err != nil {
			panic(err)
		}
		os.WriteFile(dir+"/z_gen.go", out, 0644)
	}
}
