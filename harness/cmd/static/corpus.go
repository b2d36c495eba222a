package main

import (
	"fmt"
	"io"
	"log"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"

	"verifharness/fedsim"
)

func init() { log.SetOutput(io.Discard) }

// file is one proto file of a workspace; name is relative to the import path.
type file struct {
	ws   *workspace
	name string
	text string
	fed  bool // uses federation options
}

// workspace is a set of proto files that belong together.
type workspace struct {
	name  string
	dir   string // scratch copy
	files []*file
}

func (w *workspace) fedFiles() []*file {
	var l []*file
	for _, f := range w.files {
		if f.fed {
			l = append(l, f)
		}
	}
	return l
}

// load copies the proto files of the repository (its examples and test data) and
// generated programs into scratch workspaces.
func load(repo, scratch string, seed int64, programs int) []*workspace {
	var roots []string
	for _, pat := range []string{"testdata", "validator/testdata", "_examples/*/proto", "demo/proto"} {
		m, _ := filepath.Glob(filepath.Join(repo, pat))
		roots = append(roots, m...)
	}
	sort.Strings(roots)
	var out []*workspace
	add := func(name string, texts map[string]string) {
		w := &workspace{name: name, dir: filepath.Join(scratch, strings.ReplaceAll(name, "/", "_"))}
		for n, t := range texts {
			p := filepath.Join(w.dir, n)
			_ = os.MkdirAll(filepath.Dir(p), 0o755)
			if err := os.WriteFile(p, []byte(t), 0o644); err != nil {
				panic(err)
			}
			w.files = append(w.files, &file{ws: w, name: n, text: t, fed: strings.Contains(t, "grpc.federation.") && !strings.HasPrefix(n, "grpc/federation") && !strings.Contains(t, "package grpc.federation;")})
		}
		sort.Slice(w.files, func(i, j int) bool { return w.files[i].name < w.files[j].name })
		out = append(out, w)
	}
	for _, root := range roots {
		texts := map[string]string{}
		_ = filepath.Walk(root, func(p string, i os.FileInfo, err error) error {
			if err == nil && strings.HasSuffix(p, ".proto") {
				b, _ := os.ReadFile(p)
				rel, _ := filepath.Rel(root, p)
				texts[rel] = string(b)
			}
			return nil
		})
		rel, _ := filepath.Rel(repo, root)
		add(rel, texts)
	}
	texts := map[string]string{"dep/dep.proto": fedsim.DepProto()}
	for i := range programs {
		p := fedsim.Generate(seed, i, fedsim.Profile{Name: "static", MinMsgs: 1, MaxMsgs: 4, MinDefs: 2, MaxDefs: 6, Methods: 2,
			WBy: 4, WCall: 4, WMsg: 3, WMap: 2, WValid: 2, WEnum: 1, PIf: 20, PReqIf: 15, PAuto: 35, PInline: 15, PAlias: 40, POneof: 25, PCustomField: 8, PCustomMsg: 10,
			PErr: 40, PRetry: 20, PTimeout: 20, PMethodTimeout: 20, Depth: 2, Shared: true})
		texts[p.GoDir+"/"+p.GoDir+".proto"] = p.Proto()
	}
	if programs > 0 {
		add("generated", texts)
	}
	return out
}

// mutation of proto text

var tokRe = regexp.MustCompile(`//[^\n]*|"(?:[^"\\\n]|\\.)*"|[A-Za-z_][A-Za-z0-9_.]*|[0-9]+|\s+|.`)
var blockRe = regexp.MustCompile(`(?m)^(\s*)(def|request|args|error|details|retry|method|map|message|call|validation|oneof|env|var|env \{|iterator|plugin|service)\s*(\{|\[)`)

type pools struct {
	idents, strings []string
	blocks          map[string][]string // by head word
}

var extraStrings = []string{`""`, `"$"`, `"$."`, `"nosuch"`, `"1"`, `"'a'"`, `"true"`, `"null"`, `"[]"`, `"[1]"`, `"{}"`, `"x."`, `"$.id"`, `"res"`, `"res.post"`, `"error.code"`, `"error.message"`, `"req"`, `"a b"`, `"1s"`, `"-1"`, `"post.Post"`, `"post.PostService/GetPost"`,
	`"org.federation.User"`, `"."`, `".."`, `"a..b"`, `"/"`, `"a/b/c"`, `"google.protobuf.Any"`, `"google.protobuf.Timestamp"`, `"grpc.federation.env.X"`, `"grpc.federation.var.x"`, `"__ARG__"`, `"$.a.b.c == null"`, `"[1,2].map(x, x)"`, `"[1].first(x, x > 0)"`, `"[1].reduce(a, c, a + c, 0)"`,
	`"grpc.federation.enum.select(true, 1, 2)"`, `"type(1)"`, `"dyn(1)"`, `"日本"`, `"\""`, `"\\"`, `"x\ny"`, "\"`\"", `"*/"`, `"_"`, `"1a"`, `"UNKNOWN"`, `"NOT_FOUND"`, `"USER_TYPE_UNSPECIFIED"`}
var extraIdents = []string{"int32", "int64", "uint32", "string", "bool", "bytes", "double", "float", "repeated", "optional", "oneof", "map", "message", "enum", "by", "if", "name", "def", "call", "error", "ignore", "ignore_and_response", "custom_resolver", "alias", "default", "autobind", "inline", "args", "request", "field", "method", "validation",
	"details", "code", "retry", "constant", "exponential", "timeout", "iterator", "src", "map", "enum", "true", "false", "google.protobuf.Timestamp", "google.protobuf.Any", "google.protobuf.StringValue", "google.protobuf.Empty", "stream", "reserved", "export", "plugin", "env", "var", "required", "precondition_failure", "bad_request", "localized_message", "violations", "field_violations", "log_level", "response", "attr", "oneof", "noalias", "by", "type", "kind", "repeated"}

func collect(ws []*workspace) *pools {
	p := &pools{blocks: map[string][]string{}}
	for _, w := range ws {
		for _, f := range w.files {
			if !f.fed {
				continue
			}
			for _, t := range tokRe.FindAllString(f.text, -1) {
				switch {
				case strings.HasPrefix(t, `"`):
					p.strings = append(p.strings, t)
				case regexp.MustCompile(`^[A-Za-z_]`).MatchString(t):
					p.idents = append(p.idents, t)
				}
			}
			for _, m := range blockRe.FindAllStringSubmatchIndex(f.text, -1) {
				if b := balanced(f.text, m[0]); b != "" && len(b) < 800 {
					h := head(f.text, m)
					p.blocks[h] = append(p.blocks[h], b)
				}
			}
		}
	}
	return p
}

// head tells blocks apart that may stand for each other.
func head(s string, m []int) string { return s[m[4]:m[5]] + s[m[6]:m[7]] }

// balanced returns the text from i to the end of the first bracketed block.
func balanced(s string, i int) string {
	depth := 0
	for k := i; k < len(s); k++ {
		switch s[k] {
		case '{', '[':
			depth++
		case '}', ']':
			depth--
			if depth == 0 {
				return s[i : k+1]
			}
			if depth < 0 {
				return ""
			}
		}
	}
	return ""
}

func isWord(t string) bool {
	return t != "" && (t[0] == '_' || t[0] >= 'A' && t[0] <= 'Z' || t[0] >= 'a' && t[0] <= 'z')
}

// mutate changes a file at 1 to 3 places.
func (p *pools) mutate(r *rand.Rand, text string) (string, string) {
	var ops []string
	n := []int{1, 1, 1, 1, 1, 2, 3}[r.Intn(7)]
	for range n {
		t := tokRe.FindAllString(text, -1)
		pick := func(ok func(string) bool) int {
			for range 200 {
				if i := r.Intn(len(t)); ok(t[i]) {
					return i
				}
			}
			return r.Intn(len(t))
		}
		str := func() string {
			if r.Intn(2) == 0 {
				return extraStrings[r.Intn(len(extraStrings))]
			}
			return p.strings[r.Intn(len(p.strings))]
		}
		ident := func() string {
			if r.Intn(2) == 0 {
				return extraIdents[r.Intn(len(extraIdents))]
			}
			return p.idents[r.Intn(len(p.idents))]
		}
		switch op := []int{0, 0, 0, 0, 0, 0, 3, 5, 5, 5, 5, 7, 7, 7, 7, 9, 10, 11}[r.Intn(18)]; op {
		case 0:
			i := pick(func(s string) bool { return strings.HasPrefix(s, `"`) })
			ops = append(ops, "string "+t[i])
			t[i] = str()
			ops = append(ops, "to "+t[i])
			text = strings.Join(t, "")
		case 3:
			i := pick(isWord)
			ops = append(ops, "word "+t[i])
			t[i] = ident()
			ops = append(ops, "to "+t[i])
			text = strings.Join(t, "")
		case 5: // remove, repeat or replace a block
			m := blockRe.FindAllStringSubmatchIndex(text, -1)
			if len(m) == 0 {
				continue
			}
			x := m[r.Intn(len(m))]
			pool := p.blocks[head(text, x)]
			b := balanced(text, x[0])
			if b == "" || len(pool) == 0 {
				continue
			}
			nb := ""
			if k := r.Intn(3); k == 1 {
				nb = b + "\n" + b
			} else if k == 2 {
				nb = pool[r.Intn(len(pool))]
			}
			text = text[:x[0]] + nb + text[x[0]+len(b):]
			ops = append(ops, "block")
		case 7: // insert a block before another or after an opening brace
			m := blockRe.FindAllStringSubmatchIndex(text, -1)
			if len(m) == 0 {
				continue
			}
			x := m[r.Intn(len(m))]
			at, pool := x[0], p.blocks[head(text, x)]
			if r.Intn(4) == 0 { // inside, as another kind of block
				at = x[1]
				for _, h := range []string{"def{", "error{", "details{", "call{", "message{", "request{", "args{", "validation{", "map{", "retry{"} {
					if len(p.blocks[h]) > 0 {
						pool = p.blocks[h]
						if r.Intn(4) == 0 {
							break
						}
					}
				}
			}
			if len(pool) == 0 {
				continue
			}
			text = text[:at] + "\n" + pool[r.Intn(len(pool))] + "\n" + text[at:]
			ops = append(ops, "insert")
		case 9: // remove a line
			l := strings.Split(text, "\n")
			i := r.Intn(len(l))
			ops = append(ops, "drop line "+l[i])
			text = strings.Join(append(l[:i:i], l[i+1:]...), "\n")
		case 10: // repeat or move a line
			l := strings.Split(text, "\n")
			i, j := r.Intn(len(l)), r.Intn(len(l))
			ops = append(ops, "copy line "+l[i])
			text = strings.Join(append(l[:j:j], append([]string{l[i]}, l[j:]...)...), "\n")
		case 11:
			i := pick(func(s string) bool { return strings.TrimSpace(s) != "" })
			ops = append(ops, "drop "+t[i])
			t[i] = ""
			text = strings.Join(t, "")
		}
	}
	return text, strings.Join(ops, "; ")
}

var (
	mu       sync.Mutex
	seenViol = map[string]int{}
	counts   = map[string]int{}
)

func viol(subject, f string, a ...any) {
	mu.Lock()
	defer mu.Unlock()
	seenViol[subject]++
	if seenViol[subject] <= 2 && len(seenViol) <= 40 {
		fmt.Fprintln(stdout, "VIOL "+strings.ReplaceAll(subject+": "+fmt.Sprintf(f, a...), "\n", "\\n"))
	}
}

func count(k string, n int) {
	mu.Lock()
	counts[k] += n
	mu.Unlock()
}
