// Command gentool runs /repo's Go code generator on enumerated service definitions and
// writes what it produced, together with adapters to gensup, as an overlay of mc/gen.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/format"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/pluginpb"
)

// msg is a message type that methods use: the Go expression in package p and its proto name.
type msg struct {
	proto, imp, alias, name string
}

var (
	echoMsg  = msg{"echo.EchoMsg", "github.com/aperturerobotics/starpc/echo", "xecho", "EchoMsg"}
	mockMsg  = msg{"e2e.mock.MockMsg", "github.com/aperturerobotics/starpc/mock", "xmock", "MockMsg"}
	msgTypes = []msg{echoMsg, mockMsg}
)

type method struct {
	name, goName string
	kind         int
	in, out      msg
	comment      string
}

type service struct {
	name, goName string
	methods      []method
	comment      string
}

type file struct {
	path, pkg, goPkg string // goPkg is the last element of the import path
	services         []service
	local            bool // defines Local and Outer.Inner
	skip             bool // only imported, not generated
}

var kinds = []string{"Unary", "ClientStream", "ServerStream", "Bidi"}

func files() []file {
	m := func(name, goName string, k int, in, out msg) method {
		return method{name: name, goName: goName, kind: k, in: in, out: out}
	}
	pair := func(i int) (msg, msg) { return msgTypes[i&1], msgTypes[i>>1&1] }
	var pairs, triples, types file
	pairs = file{path: "pairs.proto", pkg: "verif.pairs.v1", goPkg: "pairs"}
	for a := 0; a < 4; a++ {
		for b := 0; b < 4; b++ {
			n := fmt.Sprintf("%s%s", kinds[a], kinds[b])
			i1, o1 := pair(a + b)
			i2, o2 := pair(a + 2*b + 1)
			pairs.services = append(pairs.services, service{name: n, goName: n, methods: []method{m("First", "First", a, i1, o1), m("Second", "Second", b, i2, o2)}})
		}
	}
	triples = file{path: "dir/triples.proto", pkg: "verif.triples", goPkg: "triples"}
	for a := 0; a < 64; a++ {
		n := fmt.Sprintf("T%d%d%d", a&3, a>>2&3, a>>4)
		s := service{name: n, goName: n}
		for j, x := range []string{"Aa", "Bb", "Cc"} {
			i, o := pair(a + j)
			s.methods = append(s.methods, m(x, x, a>>(2*j)&3, i, o))
		}
		triples.services = append(triples.services, s)
	}
	types = file{path: "types.proto", pkg: "types", goPkg: "types"}
	s := service{name: "Types", goName: "Types", comment: " Types has every kind with every pair of types.\n It has two lines.\n"}
	for k := 0; k < 4; k++ {
		for j := 0; j < 4; j++ {
			i, o := pair(j)
			n := fmt.Sprintf("%s%d", kinds[k], j)
			x := m(n, n, k, i, o)
			x.comment = " " + n + " is a method.\n\n With a blank line and a \"quote\".\n"
			s.methods = append(s.methods, x)
		}
	}
	types.services = []service{s}
	names := file{path: "names.proto", pkg: "verif.names", goPkg: "names", services: []service{
		{name: "A", goName: "A", methods: []method{m("B_C", "B_C", 3, echoMsg, echoMsg), m("lower", "Lower", 0, echoMsg, mockMsg), m("get_thing", "GetThing", 2, mockMsg, echoMsg), m("put_1", "Put_1", 1, echoMsg, echoMsg)}},
		{name: "A_B", goName: "A_B", methods: []method{m("C", "C", 3, mockMsg, mockMsg), m("Get", "Get", 0, echoMsg, echoMsg), m("Get2", "Get2", 0, echoMsg, echoMsg), m("GetThing", "GetThing", 2, echoMsg, echoMsg)}},
		{name: "under_score", goName: "UnderScore", methods: []method{m("Do", "Do", 0, echoMsg, echoMsg), m("DO", "DO", 2, echoMsg, echoMsg), m("do_it", "DoIt", 1, mockMsg, mockMsg)}},
		{name: "lower", goName: "Lower", methods: []method{m("Recv", "Recv", 0, echoMsg, echoMsg), m("Send", "Send", 3, echoMsg, echoMsg), m("CloseSend", "CloseSend", 1, echoMsg, echoMsg), m("InvokeMethod", "InvokeMethod", 2, echoMsg, echoMsg)}},
		{name: "Empty", goName: "Empty"},
	}}
	local := msg{"verif.local.Local", "", "", "Local"}
	inner := msg{"verif.local.Outer.Inner", "", "", "Outer_Inner"}
	loc := file{path: "local.proto", pkg: "verif.local", goPkg: "local", local: true}
	for k := 0; k < 4; k++ {
		n := "Local" + kinds[k]
		loc.services = append(loc.services, service{name: n, goName: n, methods: []method{m("One", "One", k, local, inner), m("Two", "Two", k, inner, echoMsg), m("Three", "Three", 3-k, mockMsg, local)}})
	}
	nopkg := file{path: "nopkg.proto", goPkg: "nopkg", services: []service{{name: "NoPkg", goName: "NoPkg", methods: []method{m("Echo", "Echo", 0, echoMsg, echoMsg), m("Chat", "Chat", 3, echoMsg, mockMsg)}}}}
	one := file{path: "two/one.proto", pkg: "verif.two", goPkg: "two", services: []service{{name: "One", goName: "One", methods: []method{m("Echo", "Echo", 0, echoMsg, echoMsg), m("Chat", "Chat", 3, echoMsg, echoMsg)}}}}
	two := file{path: "two/two.proto", pkg: "verif.two", goPkg: "two", services: []service{{name: "Two", goName: "Two", methods: []method{m("Echo", "Echo", 3, echoMsg, echoMsg), m("Chat", "Chat", 0, mockMsg, echoMsg)}}}}
	none := file{path: "two/none.proto", pkg: "verif.two", goPkg: "two"}
	return []file{pairs, triples, types, names, loc, nopkg, one, two, none}
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(1)
}

// broken reports a failure of the generator.
func broken(f string, a ...any) {
	fmt.Printf("GENERATOR: "+f+"\n", a...)
	os.Exit(3)
}

func depFile(path, pkg, imp string, names ...string) *descriptorpb.FileDescriptorProto {
	f := &descriptorpb.FileDescriptorProto{Name: proto.String(path), Package: proto.String(pkg), Syntax: proto.String("proto3"),
		Options: &descriptorpb.FileOptions{GoPackage: proto.String(imp)}}
	for _, n := range names {
		f.MessageType = append(f.MessageType, &descriptorpb.DescriptorProto{Name: proto.String(n), Field: []*descriptorpb.FieldDescriptorProto{{
			Name: proto.String("body"), Number: proto.Int32(1), Label: descriptorpb.FieldDescriptorProto_LABEL_OPTIONAL.Enum(), Type: descriptorpb.FieldDescriptorProto_TYPE_STRING.Enum(), JsonName: proto.String("body")}}})
	}
	return f
}

const depEcho, depMock = "github.com/aperturerobotics/starpc/echo/echo.proto", "github.com/aperturerobotics/starpc/mock/mock.proto"

func (f file) descriptor() *descriptorpb.FileDescriptorProto {
	d := &descriptorpb.FileDescriptorProto{Name: proto.String(f.path), Syntax: proto.String("proto3"),
		Dependency:     []string{depEcho, depMock},
		Options:        &descriptorpb.FileOptions{GoPackage: proto.String("verifmc/gen/" + f.goPkg)},
		SourceCodeInfo: &descriptorpb.SourceCodeInfo{}}
	if f.pkg != "" {
		d.Package = proto.String(f.pkg)
	}
	if f.local {
		body := depFile("", "", "", "Local", "Outer").MessageType
		d.MessageType = body
		d.MessageType[1].NestedType = depFile("", "", "", "Inner").MessageType
		// an optional field needs the plugin to announce support for it
		x := body[0].Field[0]
		x.Proto3Optional, x.OneofIndex = proto.Bool(true), proto.Int32(0)
		body[0].OneofDecl = []*descriptorpb.OneofDescriptorProto{{Name: proto.String("_body")}}
	}
	comment := func(c string, path ...int32) {
		if c != "" {
			d.SourceCodeInfo.Location = append(d.SourceCodeInfo.Location, &descriptorpb.SourceCodeInfo_Location{Path: path, Span: []int32{0, 0, 1}, LeadingComments: proto.String(c)})
		}
	}
	for i, s := range f.services {
		sd := &descriptorpb.ServiceDescriptorProto{Name: proto.String(s.name)}
		comment(s.comment, 6, int32(i))
		for j, m := range s.methods {
			comment(m.comment, 6, int32(i), 2, int32(j))
			md := &descriptorpb.MethodDescriptorProto{Name: proto.String(m.name), InputType: proto.String("." + m.in.proto), OutputType: proto.String("." + m.out.proto)}
			if m.kind&1 != 0 {
				md.ClientStreaming = proto.Bool(true)
			}
			if m.kind&2 != 0 {
				md.ServerStreaming = proto.Bool(true)
			}
			sd.Method = append(sd.Method, md)
		}
		d.Service = append(d.Service, sd)
	}
	return d
}

func run(plugin string, req *pluginpb.CodeGeneratorRequest) *pluginpb.CodeGeneratorResponse {
	b, err := proto.Marshal(req)
	if err != nil {
		fatal("%v", err)
	}
	cmd := exec.Command(plugin)
	cmd.Stdin = bytes.NewReader(b)
	var stderr bytes.Buffer
	cmd.Stderr = &stderr
	out, err := cmd.Output()
	if err != nil {
		broken("the plugin failed: %v\n%s", err, stderr.String())
	}
	var resp pluginpb.CodeGeneratorResponse
	if err := proto.Unmarshal(out, &resp); err != nil {
		broken("undecodable response: %v", err)
	}
	if resp.Error != nil {
		broken("the plugin reported: %s", resp.GetError())
	}
	return &resp
}

func main() {
	plugin, outDir, root := os.Args[1], os.Args[2], os.Args[3]
	fs := files()
	req := &pluginpb.CodeGeneratorRequest{ProtoFile: []*descriptorpb.FileDescriptorProto{
		depFile(depEcho, "echo", echoMsg.imp, "EchoMsg"), depFile(depMock, "e2e.mock", mockMsg.imp+";e2e_mock", "MockMsg")}}
	want := map[string]bool{}
	for _, f := range fs {
		req.ProtoFile = append(req.ProtoFile, f.descriptor())
		req.FileToGenerate = append(req.FileToGenerate, f.path)
		if len(f.services) != 0 {
			base := strings.TrimSuffix(filepath.Base(f.path), ".proto")
			want["verifmc/gen/"+f.goPkg+"/"+base+"_srpc.pb.go"] = true
		}
	}
	resp := run(plugin, req)
	if resp.GetSupportedFeatures()&uint64(pluginpb.CodeGeneratorResponse_FEATURE_PROTO3_OPTIONAL) == 0 {
		broken("the plugin does not support files with proto3 optional fields")
	}
	again := run(plugin, req)
	if !proto.Equal(resp, again) {
		broken("two runs on the same request differ")
	}
	over := map[string]string{}
	put := func(rel string, src []byte) {
		p := filepath.Join(outDir, rel)
		if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
			fatal("%v", err)
		}
		if old, err := os.ReadFile(p); err != nil || !bytes.Equal(old, src) {
			if err := os.WriteFile(p, src, 0o644); err != nil {
				fatal("%v", err)
			}
		}
		over[filepath.Join(root, "gen", rel)] = p
	}
	for _, f := range resp.File {
		if !want[f.GetName()] {
			broken("unexpected output file %s", f.GetName())
		}
		delete(want, f.GetName())
		put(strings.TrimPrefix(f.GetName(), "verifmc/gen/"), []byte(f.GetContent()))
	}
	if len(want) != 0 {
		broken("no output for %v", want)
	}
	put("local/local.pb.go", []byte("package local\n\nimport xecho \""+echoMsg.imp+"\"\n\n// Local and Outer_Inner stand for generated messages.\ntype Local struct{ xecho.EchoMsg }\ntype Outer_Inner struct{ xecho.EchoMsg }\n"))
	put("index/index.go", index(fs))
	keys := make([]string, 0, len(over))
	for k := range over {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	b, _ := json.Marshal(over)
	if err := os.WriteFile(filepath.Join(outDir, "overlay.json"), b, 0o644); err != nil {
		fatal("%v", err)
	}
	fmt.Println(len(keys), "files")
}

// index writes the adapters of all services.
func index(fs []file) []byte {
	var b bytes.Buffer
	p := func(f string, a ...any) { fmt.Fprintf(&b, f+"\n", a...) }
	p("// Package index adapts the generated services.\npackage index\n\nimport (\n\"context\"\n\"verifmc/gensup\"\n\"github.com/aperturerobotics/starpc/srpc\"\nxecho %q\nxmock %q", echoMsg.imp, mockMsg.imp)
	seen := map[string]bool{}
	for _, f := range fs {
		if len(f.services) != 0 && !seen[f.goPkg] {
			seen[f.goPkg] = true
			p("%q", "verifmc/gen/"+f.goPkg)
		}
	}
	p(")\n\n// Services lists the generated services.\nvar Services []gensup.Service\n")
	p("type _ = xecho.EchoMsg\ntype _ = xmock.MockMsg")
	n := 0
	for _, f := range fs {
		for _, s := range f.services {
			n++
			typ := func(m msg) string {
				if m.imp == "" {
					return f.goPkg + "." + m.name
				}
				return m.alias + "." + m.name
			}
			lit := func(m msg, v string) string {
				if m.imp == "" {
					return "&" + typ(m) + "{EchoMsg: xecho.EchoMsg{Body: " + v + "}}"
				}
				return "&" + typ(m) + "{Body: " + v + "}"
			}
			esc := func(x string) string { return strings.ReplaceAll(x, "_", "__") }
			full := s.name
			if f.pkg != "" {
				full = f.pkg + "." + s.name
			}
			impl := fmt.Sprintf("impl%d", n)
			p("type %s struct{ i gensup.Impl }\n", impl)
			p("var _ %s.SRPC%sServer = (*%s)(nil)\n", f.goPkg, s.goName, impl)
			recvs := func(st string, t string) string {
				return fmt.Sprintf("Recv: func() (string, error) { m, err := %s.Recv(); if err != nil { return \"\", err }; return m.GetBody(), nil }, RecvTo: func() (string, error) { m := new(%s); err := %s.RecvTo(m); return m.GetBody(), err },", st, t, st)
			}
			for _, m := range s.methods {
				name := full + "." + m.name
				strm := fmt.Sprintf("%s.SRPC%s_%sStream", f.goPkg, esc(s.goName), esc(m.goName))
				sends := fmt.Sprintf("Send: func(x string) error { return s.Send(%s) }, SendAndClose: func(x string) error { return s.SendAndClose(%s) }, SendAndCloseNil: func() error { return s.SendAndClose(nil) },", lit(m.out, "x"), lit(m.out, "x"))
				switch m.kind {
				case 0:
					p("func (h *%s) %s(ctx context.Context, in *%s) (*%s, error) { x, err := h.i.Unary(ctx, %q, in.GetBody()); if err != nil || x == \"nil\" { return nil, err }; return %s, nil }\n", impl, m.goName, typ(m.in), typ(m.out), name, lit(m.out, "x"))
				case 1:
					p("func (h *%s) %s(s %s) (*%s, error) { x, err := h.i.ClientStream(%q, &gensup.Strm{Stream: s, %s}); if err != nil || x == \"nil\" { return nil, err }; return %s, nil }\n", impl, m.goName, strm, typ(m.out), name, recvs("s", typ(m.in)), lit(m.out, "x"))
				case 2:
					p("func (h *%s) %s(in *%s, s %s) error { return h.i.ServerStream(%q, in.GetBody(), &gensup.Strm{Stream: s, %s}) }\n", impl, m.goName, typ(m.in), strm, name, sends)
				case 3:
					p("func (h *%s) %s(s %s) error { return h.i.Bidi(%q, &gensup.Strm{Stream: s, %s %s}) }\n", impl, m.goName, strm, name, sends, recvs("s", typ(m.in)))
				}
			}
			cl := fmt.Sprintf("%s.SRPC%sClient", f.goPkg, s.goName)
			p("func init() {\nvar ms []gensup.Method")
			for _, m := range s.methods {
				strm := fmt.Sprintf("%s.SRPC%s_%sClient", f.goPkg, esc(s.goName), esc(m.goName))
				csends := fmt.Sprintf("Send: func(x string) error { return s.Send(%s) }, SendNil: func() error { return s.Send(nil) },", lit(m.in, "x"))
				p("ms = append(ms, gensup.Method{Name: %q, Kind: %d,", m.name, m.kind)
				switch m.kind {
				case 0:
					p("Call: func(ctx context.Context, c any, in string) (string, error) { out, err := c.(%s).%s(ctx, %s); if err != nil { return \"\", err }; return out.GetBody(), nil },", cl, m.goName, lit(m.in, "in"))
				case 1:
					p("Open: func(ctx context.Context, c any, in string) (*gensup.Strm, error) { s, err := c.(%s).%s(ctx); if err != nil { return nil, err }; var _ %s = s; return &gensup.Strm{Stream: s, %s CloseAndRecv: func() (string, error) { m, err := s.CloseAndRecv(); var _ *%s = m; if err != nil { return \"\", err }; return m.GetBody(), nil }, CloseAndMsgRecv: func() (string, error) { m := new(%s); err := s.(interface{ CloseAndMsgRecv(*%s) error }).CloseAndMsgRecv(m); return m.GetBody(), err }}, nil },", cl, m.goName, strm, csends, typ(m.out), typ(m.out), typ(m.out))
				case 2:
					p("Open: func(ctx context.Context, c any, in string) (*gensup.Strm, error) { s, err := c.(%s).%s(ctx, %s); if err != nil { return nil, err }; var _ %s = s; return &gensup.Strm{Stream: s, %s}, nil },", cl, m.goName, lit(m.in, "in"), strm, recvs("s", typ(m.out)))
				case 3:
					p("Open: func(ctx context.Context, c any, in string) (*gensup.Strm, error) { s, err := c.(%s).%s(ctx); if err != nil { return nil, err }; var _ %s = s; return &gensup.Strm{Stream: s, %s %s}, nil },", cl, m.goName, strm, csends, recvs("s", typ(m.out)))
				}
				p("})")
			}
			p("Services = append(Services, gensup.Service{Name: %q, ConstID: %s.SRPC%sServiceID, Methods: ms,", full, f.goPkg, s.goName)
			p("New: func(cl srpc.Client) any { return %s.NewSRPC%sClient(cl) },", f.goPkg, s.goName)
			p("NewWithID: func(cl srpc.Client, id string) any { return %s.NewSRPC%sClientWithServiceID(cl, id) },", f.goPkg, s.goName)
			p("Handler: func(i gensup.Impl, id string) srpc.Handler { return %s.NewSRPC%sHandler(&%s{i}, id) },", f.goPkg, s.goName, impl)
			p("Register: func(mux srpc.Mux, i gensup.Impl) error { return %s.SRPCRegister%s(mux, &%s{i}) },", f.goPkg, s.goName, impl)
			p("Client: func(c any) srpc.Client { return c.(%s).SRPCClient() },", cl)
			p("})\n}\n")
		}
	}
	src, err := format.Source(b.Bytes())
	if err != nil {
		fatal("index: %v\n%s", err, b.String())
	}
	return src
}
