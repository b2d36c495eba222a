package main

import (
	"context"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"go.lsp.dev/protocol"
	"go.lsp.dev/uri"

	"github.com/mercari/grpc-federation/lsp/server"
	"github.com/mercari/grpc-federation/source"
	"github.com/mercari/grpc-federation/validator"
)

// lspClient records the diagnostics a language server publishes.
type lspClient struct {
	protocol.Client
	mu    sync.Mutex
	last  map[string][]protocol.Diagnostic
	count int
	r     *rand.Rand
}

func (c *lspClient) PublishDiagnostics(_ context.Context, p *protocol.PublishDiagnosticsParams) error {
	c.mu.Lock()
	d := time.Duration(c.r.Intn(3)) * time.Millisecond
	c.mu.Unlock()
	time.Sleep(d) // the connection takes its time
	c.mu.Lock()
	defer c.mu.Unlock()
	c.last[string(p.URI)] = p.Diagnostics
	c.count++
	return nil
}

func diagText(ds []protocol.Diagnostic) string {
	var l []string
	for _, d := range ds {
		l = append(l, fmt.Sprintf("%v %d:%d-%d:%d %s", d.Severity, d.Range.Start.Line, d.Range.Start.Character, d.Range.End.Line, d.Range.End.Character, d.Message))
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

// wantDiagnostics checks the text from scratch.
func wantDiagnostics(path, text string, imports []string) (string, bool) {
	f, err := source.NewFile(path, []byte(text))
	if err != nil {
		return "", false
	}
	pos := func(n int) uint32 {
		if n < 1 {
			return 0
		}
		return uint32(n - 1)
	}
	var ds []protocol.Diagnostic
	for _, o := range validator.New().Validate(context.Background(), f, validator.ImportPathOption(imports...)) {
		s := protocol.DiagnosticSeverityError
		if o.IsWarning {
			s = protocol.DiagnosticSeverityWarning
		}
		ds = append(ds, protocol.Diagnostic{Severity: s, Message: o.Message, Range: protocol.Range{
			Start: protocol.Position{Line: pos(o.Start.Line), Character: pos(o.Start.Col)},
			End:   protocol.Position{Line: pos(o.End.Line), Character: pos(o.End.Col)}}})
	}
	return diagText(ds), true
}

type lspDoc struct {
	f    *file
	path string
	text string
	open bool
}

func (d *lspDoc) uri() uri.URI { return uri.URI("file://" + d.path) }

type lspSession struct {
	h      *server.Handler
	client *lspClient
	docs   []*lspDoc
	dir    string
	r      *rand.Rand
	log    []string
}

// a goroutine that runs, or was started by, the server
var validating = regexp.MustCompile(`grpc-federation/lsp/server\.`)

func quiesce(limit time.Duration) bool {
	end := time.Now().Add(limit)
	buf := make([]byte, 16<<20)
	for time.Now().Before(end) {
		if !validating.Match(buf[:runtime.Stack(buf, true)]) {
			return true
		}
		time.Sleep(5 * time.Millisecond)
	}
	return false
}

func (s *lspSession) viol(subject, format string, a ...any) {
	viol(subject, "%s [last steps: %s]", fmt.Sprintf(format, a...), strings.Join(s.log[max(0, len(s.log)-4):], "; "))
}

// inText tells whether the position is one of the text.
func inText(text string, p protocol.Position) bool {
	lines := strings.Split(text, "\n")
	return int(p.Line) < len(lines) && int(p.Character) <= len(lines[p.Line])
}

func slice(text string, r protocol.Range) string {
	lines := strings.Split(text, "\n")
	if r.Start.Line != r.End.Line || !inText(text, r.Start) || !inText(text, r.End) || r.End.Character < r.Start.Character {
		return ""
	}
	return lines[r.Start.Line][r.Start.Character:r.End.Character]
}

func (s *lspSession) textOf(path string) (string, bool) {
	for _, d := range s.docs {
		if d.path == path {
			return d.text, true
		}
	}
	b, err := os.ReadFile(path)
	return string(b), err == nil
}

var wordRe = regexp.MustCompile(`[A-Za-z_][\w./]*`)

// position chooses one on a word, anywhere, or outside.
func (s *lspSession) position(d *lspDoc) protocol.Position {
	lines := strings.Split(d.text, "\n")
	switch s.r.Intn(8) {
	case 0:
		return protocol.Position{Line: uint32(s.r.Intn(len(lines) + 3)), Character: uint32(s.r.Intn(200))}
	case 1:
		return protocol.Position{Line: uint32(s.r.Uint32()), Character: uint32(s.r.Uint32())}
	}
	ms := wordRe.FindAllStringIndex(d.text, -1)
	if s.r.Intn(4) != 0 { // names in strings are what definitions are asked for
		if q := quotedRe.FindAllStringIndex(d.text, -1); len(q) > 0 {
			ms = q
		}
	}
	if len(ms) == 0 {
		return protocol.Position{}
	}
	m := ms[s.r.Intn(len(ms))]
	o := m[0] + s.r.Intn(m[1]-m[0])
	line := strings.Count(d.text[:o], "\n")
	return protocol.Position{Line: uint32(line), Character: uint32(o - strings.LastIndex(d.text[:o], "\n") - 1)}
}

var quotedRe = regexp.MustCompile(`"[A-Za-z_][\w./]*"`)

func (s *lspSession) query(d *lspDoc) {
	ctx := context.Background()
	pos := s.position(d)
	tp := protocol.TextDocumentPositionParams{TextDocument: protocol.TextDocumentIdentifier{URI: d.uri()}, Position: pos}
	kind := []int{0, 1, 1, 2, 2, 3}[s.r.Intn(6)]
	s.log = append(s.log, fmt.Sprintf("query %d at %d:%d of %s", kind, pos.Line, pos.Character, d.f.name))
	where := guard("query", minute, func() {
		switch kind {
		case 0:
			l, err := s.h.Completion(ctx, &protocol.CompletionParams{TextDocumentPositionParams: tp})
			if err != nil || l == nil {
				return
			}
			count("completions", 1)
			for _, it := range l.Items {
				if it.TextEdit == nil {
					continue
				}
				count("completion_edits", 1)
				if !inText(d.text, it.TextEdit.Range.Start) || !inText(d.text, it.TextEdit.Range.End) {
					s.viol("completion", "completing at %d:%d edits %+v, outside of the document %s", pos.Line, pos.Character, it.TextEdit.Range, d.f.name)
				}
			}
		case 1, 2:
			var locs []protocol.Location
			if kind == 1 {
				l, err := s.h.Definition(ctx, &protocol.DefinitionParams{TextDocumentPositionParams: tp})
				if err != nil {
					return
				}
				locs = l
			} else {
				l, err := s.h.DefinitionWithLink(ctx, &protocol.DefinitionParams{TextDocumentPositionParams: tp})
				if err != nil {
					return
				}
				for _, x := range l {
					locs = append(locs, protocol.Location{URI: x.TargetURI, Range: x.TargetRange})
					if o := x.OriginSelectionRange; o == nil || pos.Line < o.Start.Line || pos.Line > o.End.Line || !inText(d.text, o.Start) || !inText(d.text, o.End) {
						s.viol("link origin", "the definition asked for at %d:%d of %s has its origin at %+v", pos.Line, pos.Character, d.f.name, o)
					}
				}
			}
			line := ""
			if ls := strings.Split(d.text, "\n"); int(pos.Line) < len(ls) {
				line = ls[pos.Line]
			}
			for _, l := range locs {
				count("definitions", 1)
				path := strings.TrimPrefix(string(l.URI), "file://")
				text, ok := s.textOf(path)
				if !ok {
					s.viol("definition file", "the definition asked for at %d:%d of %s leads to %s, which does not exist", pos.Line, pos.Character, d.f.name, path)
					continue
				}
				if !inText(text, l.Range.Start) || !inText(text, l.Range.End) {
					s.viol("definition range", "the definition asked for at %d:%d of %s leads to %+v, outside of %s", pos.Line, pos.Character, d.f.name, l.Range, path)
					continue
				}
				if l.Range.Start == l.Range.End {
					continue // a file
				}
				name := slice(text, l.Range)
				if name == "" || !strings.Contains(line, name) {
					s.viol("definition target", "the definition asked for at %d:%d of %s (line %q) leads to %q at %+v of %s", pos.Line, pos.Character, d.f.name, line, name, l.Range, path)
				} else {
					count("definitions_named", 1)
				}
			}
		case 3:
			st, err := s.h.SemanticTokensFull(ctx, &protocol.SemanticTokensParams{TextDocument: tp.TextDocument})
			if err != nil || st == nil {
				return
			}
			count("token_lists", 1)
			if len(st.Data)%5 != 0 {
				s.viol("tokens", "%d numbers of semantic tokens of %s", len(st.Data), d.f.name)
				return
			}
			count("tokens", len(st.Data)/5)
		}
	})
	if where != "" {
		s.viol("crash"+frameOf(where), "%s", where)
	}
}

func (s *lspSession) change(d *lspDoc, text string, how string) {
	s.log = append(s.log, "change "+d.f.name+" "+how)
	d.text = text
	if err := s.h.DidChange(context.Background(), &protocol.DidChangeTextDocumentParams{
		TextDocument:   protocol.VersionedTextDocumentIdentifier{TextDocumentIdentifier: protocol.TextDocumentIdentifier{URI: d.uri()}},
		ContentChanges: []protocol.TextDocumentContentChangeEvent{{Text: text}},
	}); err != nil {
		s.viol("change", "a change is refused: %v", err)
	}
}

func (s *lspSession) edit(p *pools, d *lspDoc) {
	switch s.r.Intn(9) {
	case 0, 1:
		s.change(d, d.f.text, "to the original")
	case 2:
		n := s.r.Intn(len(d.f.text))
		s.change(d, d.f.text[:n], fmt.Sprintf("to the first %d bytes", n))
	case 3, 4, 5:
		s.change(d, strings.Repeat("\n", s.r.Intn(4))+d.f.text, "moved down")
	default:
		base := d.text
		if s.r.Intn(2) == 0 {
			base = d.f.text
		}
		t, ops := p.mutate(s.r, base)
		s.change(d, t, "by "+ops)
	}
}

func languageServer(ws []*workspace, scratch string, seed int64, n int) {
	p := collect(ws)
	r := rand.New(rand.NewSource(seed))
	for i := range n {
		w := ws[r.Intn(len(ws))]
		fs := w.fedFiles()
		if len(fs) == 0 {
			continue
		}
		dir := filepath.Join(scratch, fmt.Sprintf("lsp%d", i))
		if err := os.CopyFS(dir, os.DirFS(w.dir)); err != nil {
			viol("harness", "%v", err)
			return
		}
		s := &lspSession{client: &lspClient{last: map[string][]protocol.Diagnostic{}, r: rand.New(rand.NewSource(r.Int63()))}, dir: dir, r: r}
		s.h = server.NewHandler(s.client, io.Discard, []string{dir})
		for range 1 + r.Intn(2) {
			f := fs[r.Intn(len(fs))]
			d := &lspDoc{f: f, path: filepath.Join(dir, f.name), text: f.text}
			if len(s.docs) == 0 || s.docs[0].path != d.path {
				s.docs = append(s.docs, d)
			}
		}
		s.run(p)
		_ = os.RemoveAll(dir)
	}
	fmt.Fprintf(stdout, "EVAL %d %d\n", counts["final_texts"]+counts["definitions"]+counts["completions"]+counts["token_lists"], counts["final_texts"]+counts["definitions_named"])
}

func (s *lspSession) run(p *pools) {
	ctx := context.Background()
	legend := []string{"namespace", "type", "comment", "property", "keyword", "string", "number", "operator", "method", "enumMember", "variable"}
	_, _ = s.h.Initialize(ctx, &protocol.InitializeParams{Capabilities: protocol.ClientCapabilities{TextDocument: &protocol.TextDocumentClientCapabilities{
		SemanticTokens: &protocol.SemanticTokensClientCapabilities{TokenTypes: legend}}}})
	open := func(d *lspDoc) {
		_ = s.h.DidOpen(ctx, &protocol.DidOpenTextDocumentParams{TextDocument: protocol.TextDocumentItem{URI: d.uri(), Text: d.text}})
		d.open = true
	}
	edited := map[*lspDoc]bool{}
	for range 2 + s.r.Intn(3) {
		for _, d := range s.docs {
			if !d.open {
				open(d)
			}
		}
		for range 6 + s.r.Intn(12) {
			d := s.docs[s.r.Intn(len(s.docs))]
			if s.r.Intn(4) == 0 {
				s.edit(p, d)
				edited[d] = true
				count("edits", 1)
			} else {
				s.query(d)
				count("queries", 1)
			}
		}
		if !quiesce(2 * minute) {
			s.viol("hang", "the check of an edited text did not end")
			return
		}
		for _, d := range s.docs {
			if !edited[d] {
				continue
			}
			want, ok := wantDiagnostics(d.path, d.text, []string{s.dir})
			if !ok {
				count("unparsable", 1)
				continue
			}
			var got string
			for range 50 { // nothing runs any more; nevertheless a late result is waited for
				s.client.mu.Lock()
				got = diagText(s.client.last[string(d.uri())])
				s.client.mu.Unlock()
				if got == want {
					break
				}
				time.Sleep(100 * time.Millisecond)
			}
			count("final_texts", 1)
			if got != want {
				s.viol("diagnostics", "after the last edit of %s the diagnostics are\n  %.600s\nchecking its text from scratch gives\n  %.600s", d.f.name, strings.ReplaceAll(got, "\n", " | "), strings.ReplaceAll(want, "\n", " | "))
			}
		}
		if s.r.Intn(3) == 0 { // closed without saving: the file is what is on disk again
			d := s.docs[s.r.Intn(len(s.docs))]
			s.log = append(s.log, "close "+d.f.name)
			_ = s.h.DidClose(ctx, &protocol.DidCloseTextDocumentParams{TextDocument: protocol.TextDocumentIdentifier{URI: d.uri()}})
			d.text, d.open, edited[d] = d.f.text, false, false
		}
	}
}
