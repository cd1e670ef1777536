package main

import (
	"context"
	"encoding/json"
	"fmt"
	"math"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/takenet/deckard"
	"github.com/takenet/deckard/internal/config"
	"github.com/takenet/deckard/internal/queue"
	"github.com/takenet/deckard/internal/queue/cache"
	"github.com/takenet/deckard/internal/queue/storage"
	"google.golang.org/grpc"
	"google.golang.org/grpc/codes"
	"google.golang.org/grpc/credentials"
	"google.golang.org/grpc/credentials/insecure"
	grpchealth "google.golang.org/grpc/health/grpc_health_v1"
	reflectionpb "google.golang.org/grpc/reflection/grpc_reflection_v1"
	"google.golang.org/grpc/status"
	"google.golang.org/protobuf/encoding/protojson"
	"google.golang.org/protobuf/encoding/protowire"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/dynamicpb"
	"google.golang.org/protobuf/types/known/anypb"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------------------------------------------------------
// a server on the network

// lastServer is the one started last.
var lastServer *grpc.Server

// serve starts the gRPC server of the instance on a port of its own. The error is the one of the server.
func serve(h *H, in *instance) (addr string, err error) {
	for try := 0; try < 20; try++ {
		l, e := net.Listen("tcp", "127.0.0.1:0")
		Must(e)
		port := l.Addr().(*net.TCPAddr).Port
		l.Close()
		config.GrpcPort.Set(port)
		srv, e := in.svc.ServeGRPCServer(bg)
		if e != nil && strings.Contains(e.Error(), "address already in use") {
			continue
		}
		if e != nil {
			return "", e
		}
		lastServer = srv
		h.Cleanup(srv.Stop)
		return fmt.Sprintf("127.0.0.1:%d", port), nil
	}
	Must(fmt.Errorf("no free port"))
	return
}

func dial(h *H, addr string, creds credentials.TransportCredentials, opts ...grpc.DialOption) *grpc.ClientConn {
	if creds == nil {
		creds = insecure.NewCredentials()
	}
	c, err := grpc.NewClient("passthrough:///"+addr, append([]grpc.DialOption{grpc.WithTransportCredentials(creds),
		grpc.WithDefaultCallOptions(grpc.MaxCallRecvMsgSize(1<<30), grpc.MaxCallSendMsgSize(1<<30), grpc.WaitForReady(true))}, opts...)...)
	Must(err)
	h.Cleanup(func() { c.Close() })
	return c
}

var failFast = grpc.WaitForReady(false)

func callCtx() (context.Context, func()) { return context.WithTimeout(bg, 30*time.Second) }

// ---------------------------------------------------------------------------------------------------------------
// the published contract, as protoc reads it

type contract struct {
	file protoreflect.FileDescriptor
	msgs []protoreflect.MessageDescriptor
}

var contractOnce sync.Once
var theContract contract

func repoDir() string {
	if d := os.Getenv("REPO"); d != "" {
		return d
	}
	return "/repo"
}

func published() contract {
	contractOnce.Do(func() {
		dir := filepath.Join(repoDir(), "proto")
		out, err := os.CreateTemp("", "descriptor")
		Must(err)
		defer os.Remove(out.Name())
		cmd := exec.Command("protoc", "-I", dir, "--include_imports", "--descriptor_set_out="+out.Name(), "deckard_service.proto")
		if b, err := cmd.CombinedOutput(); err != nil {
			Must(fmt.Errorf("protoc: %v: %s", err, b))
		}
		b, err := os.ReadFile(out.Name())
		Must(err)
		var set descriptorpb.FileDescriptorSet
		Must(proto.Unmarshal(b, &set))
		files, err := protodesc.NewFiles(&set)
		Must(err)
		fd, err := files.FindFileByPath("deckard_service.proto")
		Must(err)
		theContract.file = fd
		for i := 0; i < fd.Messages().Len(); i++ {
			theContract.msgs = append(theContract.msgs, fd.Messages().Get(i))
		}
	})
	return theContract
}

// describe lists what clients depend on.
func describe(fd protoreflect.FileDescriptor) []string {
	out := []string{"package " + string(fd.Package())}
	var msgs func(ms protoreflect.MessageDescriptors)
	msgs = func(ms protoreflect.MessageDescriptors) {
		for i := 0; i < ms.Len(); i++ {
			m := ms.Get(i)
			out = append(out, "message "+string(m.FullName()))
			for j := 0; j < m.Fields().Len(); j++ {
				f := m.Fields().Get(j)
				typ := f.Kind().String()
				if f.Message() != nil {
					typ = string(f.Message().FullName())
				}
				out = append(out, fmt.Sprintf("field %s = %d %s %s map=%v json=%s", f.FullName(), f.Number(), f.Cardinality(), typ, f.IsMap(), f.JSONName()))
			}
			msgs(m.Messages())
		}
	}
	msgs(fd.Messages())
	for i := 0; i < fd.Services().Len(); i++ {
		s := fd.Services().Get(i)
		for j := 0; j < s.Methods().Len(); j++ {
			m := s.Methods().Get(j)
			out = append(out, fmt.Sprintf("rpc %s(%s) %s %v %v", m.FullName(), m.Input().FullName(), m.Output().FullName(), m.IsStreamingClient(), m.IsStreamingServer()))
		}
	}
	sort.Strings(out)
	return out
}

func diffLists(want, got []string) string {
	in := func(l []string) map[string]bool {
		m := map[string]bool{}
		for _, x := range l {
			m[x] = true
		}
		return m
	}
	w, g := in(want), in(got)
	var d []string
	for _, x := range want {
		if !g[x] {
			d = append(d, "missing: "+x)
		}
	}
	for _, x := range got {
		if !w[x] {
			d = append(d, "unexpected: "+x)
		}
	}
	return strings.Join(d, "; ")
}

// dump writes the set fields of a message by name.
func dump(m protoreflect.Message) any {
	out := map[string]any{}
	val := func(f protoreflect.FieldDescriptor, v protoreflect.Value) any {
		switch f.Kind() {
		case protoreflect.MessageKind:
			return dump(v.Message())
		case protoreflect.BytesKind:
			return fmt.Sprintf("%x", v.Bytes())
		case protoreflect.DoubleKind:
			return fmt.Sprintf("%016x", math.Float64bits(v.Float()))
		default:
			return fmt.Sprint(v.Interface())
		}
	}
	m.Range(func(f protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		switch {
		case f.IsMap():
			mm := map[string]any{}
			v.Map().Range(func(k protoreflect.MapKey, e protoreflect.Value) bool {
				mm["k"+k.String()] = val(f.MapValue(), e)
				return true
			})
			out[string(f.Name())] = mm
		case f.IsList():
			l := []any{}
			for i := 0; i < v.List().Len(); i++ {
				l = append(l, val(f, v.List().Get(i)))
			}
			out[string(f.Name())] = l
		default:
			out[string(f.Name())] = val(f, v)
		}
		return true
	})
	return out
}

func dumpText(m proto.Message) string {
	b, err := json.Marshal(dump(m.ProtoReflect()))
	Must(err)
	return string(b)
}

type wireCase struct {
	Type string
	Data []byte
}

func wildString(t *rapid.T, n string) string {
	if rapid.IntRange(0, 5).Draw(t, n+" long?") == 5 {
		return longString(t, n)
	}
	return rapid.OneOf(rapid.SampledFrom([]string{"", "a", "b", "q", "::", "\x00", "ü😀", "{", "*"}), rapid.StringN(0, 8, -1)).Draw(t, n)
}

// longString has characters of several bytes, at any offset.
func longString(t *rapid.T, n string) string {
	size := 1 << rapid.IntRange(3, 13).Draw(t, n+" size")
	return strings.Repeat("x", rapid.IntRange(0, 3).Draw(t, n+" offset")) + strings.Repeat(rapid.SampledFrom([]string{"x", "é", "日", "😀"}).Draw(t, n), size)
}

func wildInt(t *rapid.T, n string) int64 {
	return rapid.OneOf(rapid.SampledFrom([]int64{0, 1, -1, math.MaxInt64, math.MinInt64, math.MaxInt32, math.MinInt32, 1 << 53, 1000, 1001}), rapid.Int64(), rapid.Int64Range(-10, 5000)).Draw(t, n)
}

// fill sets random fields, as the contract describes them.
func fill(t *rapid.T, m *dynamicpb.Message, depth int) {
	fs := m.Descriptor().Fields()
	val := func(f protoreflect.FieldDescriptor) protoreflect.Value {
		switch f.Kind() {
		case protoreflect.StringKind:
			return protoreflect.ValueOfString(wildString(t, string(f.Name())))
		case protoreflect.BytesKind:
			return protoreflect.ValueOfBytes(rapid.SliceOfN(rapid.Byte(), 0, 8).Draw(t, string(f.Name())))
		case protoreflect.BoolKind:
			return protoreflect.ValueOfBool(rapid.Bool().Draw(t, string(f.Name())))
		case protoreflect.Int32Kind:
			return protoreflect.ValueOfInt32(int32(wildInt(t, string(f.Name()))))
		case protoreflect.Int64Kind:
			return protoreflect.ValueOfInt64(wildInt(t, string(f.Name())))
		case protoreflect.DoubleKind:
			return protoreflect.ValueOfFloat64(anyScore(t, string(f.Name())) + 0) // no negative zero
		case protoreflect.MessageKind:
			c := dynamicpb.NewMessage(f.Message())
			fill(t, c, depth+1)
			return protoreflect.ValueOfMessage(c)
		}
		Must(fmt.Errorf("unknown kind %v", f.Kind()))
		return protoreflect.Value{}
	}
	for i := 0; i < fs.Len(); i++ {
		f := fs.Get(i)
		if rapid.IntRange(0, 3).Draw(t, "set "+string(f.Name())) == 0 {
			continue
		}
		switch {
		case f.IsMap():
			mp := m.Mutable(f).Map()
			for n := rapid.IntRange(0, 3).Draw(t, "entries"); n > 0; n-- {
				mp.Set(protoreflect.ValueOfString(wildString(t, "key")).MapKey(), val(f.MapValue()))
			}
		case f.IsList():
			l := m.Mutable(f).List()
			for n := rapid.IntRange(0, 3).Draw(t, "elements"); n > 0; n-- {
				l.Append(val(f))
			}
		default:
			m.Set(f, val(f))
		}
	}
}

func genWire(t *rapid.T) wireCase {
	ms := published().msgs
	d := ms[rapid.IntRange(0, len(ms)-1).Draw(t, "type")]
	m := dynamicpb.NewMessage(d)
	fill(t, m, 0)
	b, err := proto.MarshalOptions{Deterministic: true}.Marshal(m)
	Must(err)
	return wireCase{string(d.Name()), b}
}

func goMessage(h *H, name string) proto.Message {
	mt, err := protoregistry.GlobalTypes.FindMessageByName(protoreflect.FullName("blipai.deckard." + name))
	h.Check(err == nil, "C27", "there is no Go type for the message %s", name)
	return mt.New().Interface()
}

func execWire(h *H, c wireCase) {
	var d protoreflect.MessageDescriptor
	for _, m := range published().msgs {
		if string(m.Name()) == c.Type {
			d = m
		}
	}
	if d == nil {
		h.Discard("the type is not published")
	}
	dyn := dynamicpb.NewMessage(d)
	Must(proto.Unmarshal(c.Data, dyn))
	want := dumpText(dyn)
	h.Logf("%s %s", c.Type, want)
	h.Label(c.Type)
	if len(c.Data) > 0 {
		h.Nontrivial()
	}
	m := goMessage(h, c.Type)
	h.Check(proto.Unmarshal(c.Data, m) == nil, "C27", "a published %s cannot be decoded", c.Type)
	h.Check(dumpText(m) == want, "C27", "%s %s was decoded as %s", c.Type, want, dumpText(m))
	b, err := proto.Marshal(m)
	h.Check(err == nil, "C27", "%s cannot be encoded: %v", c.Type, err)
	dyn2 := dynamicpb.NewMessage(d)
	h.Check(proto.Unmarshal(b, dyn2) == nil && dumpText(dyn2) == want, "C27", "%s %s was encoded as %s", c.Type, want, dumpText(dyn2))
	// the fields and getters of the Go type
	v := reflect.ValueOf(m)
	nilPtr := reflect.Zero(v.Type())
	for i := 0; i < v.Elem().NumField(); i++ {
		sf := v.Elem().Type().Field(i)
		tag := sf.Tag.Get("protobuf")
		if tag == "" {
			continue
		}
		name := ""
		for _, p := range strings.Split(tag, ",") {
			if strings.HasPrefix(p, "name=") {
				name = p[5:]
			}
		}
		f := m.ProtoReflect().Descriptor().Fields().ByName(protoreflect.Name(name))
		h.Check(f != nil, "C27", "%s has a Go field %s for the unknown field %s", c.Type, sf.Name, name)
		g := v.MethodByName("Get" + sf.Name)
		h.Check(g.IsValid(), "C27", "%s has no Get%s", c.Type, sf.Name)
		got := g.Call(nil)[0].Interface()
		h.Check(sameValue(got, v.Elem().Field(i).Interface()), "C27", "Get%s of a %s returned %v instead of %v", sf.Name, c.Type, got, v.Elem().Field(i).Interface())
		z := nilPtr.MethodByName("Get" + sf.Name).Call(nil)[0]
		h.Check(z.IsZero(), "C27", "Get%s of a nil %s returned %v", sf.Name, c.Type, z.Interface())
		// the descriptor's name belongs to this Go field
		set := m.ProtoReflect().Has(f)
		if fl, ok := got.(float64); ok && fl == 0 {
			continue // a negative zero is set, but it is zero
		}
		h.Check(set == !v.Elem().Field(i).IsZero() || set == (v.Elem().Field(i).Kind() == reflect.Map && v.Elem().Field(i).Len() > 0), "C27", "field %s of %s is not in its Go field", name, c.Type)
	}
	// JSON
	js, err := protojson.Marshal(m)
	if err == nil { // an Any of an unknown type has no JSON form
		m2 := goMessage(h, c.Type)
		h.Check(protojson.Unmarshal(js, m2) == nil && dumpText(m2) == want, "C27", "%s %s became %s through JSON", c.Type, want, dumpText(m2))
		h.Label("json")
	}
	cl := proto.Clone(m)
	proto.Reset(m)
	h.Check(dumpText(cl) == want && dumpText(m) == "{}", "C27", "reset or clone of %s", c.Type)
}

func sameValue(a, b any) bool {
	if x, ok := a.(float64); ok {
		y, ok := b.(float64)
		return ok && math.Float64bits(x) == math.Float64bits(y)
	}
	return reflect.DeepEqual(a, b)
}

type contractCase struct{ N int }

// execContract compares what is published with what is compiled and with what a server serves.
func execContract(h *H, _ contractCase) {
	p := published()
	want := describe(p.file)
	d := diffLists(want, describe(deckard.File_deckard_service_proto))
	h.Check(d == "", "C27", "the generated descriptors differ from proto/deckard_service.proto: %s", d)
	var names, rpcs []string
	for _, m := range deckard.Deckard_ServiceDesc.Methods {
		names = append(names, m.MethodName)
	}
	svc := p.file.Services().Get(0)
	for i := 0; i < svc.Methods().Len(); i++ {
		rpcs = append(rpcs, string(svc.Methods().Get(i).Name()))
	}
	sort.Strings(names)
	sort.Strings(rpcs)
	h.Check(fmt.Sprint(names) == fmt.Sprint(rpcs), "C27", "the server has the methods %v, the contract has %v", names, rpcs)
	h.Check(deckard.Deckard_ServiceDesc.ServiceName == string(svc.FullName()), "C27", "the service is named %s", deckard.Deckard_ServiceDesc.ServiceName)

	in := newInstance("memory")
	addr, err := serve(h, in)
	h.Check(err == nil, "C27", "the server does not start: %v", err)
	conn := dial(h, addr, nil)
	ctx, cancel := callCtx()
	defer cancel()
	for _, name := range []string{"", string(svc.FullName())} {
		var st *grpchealth.HealthCheckResponse
		for i := 0; i < 100; i++ {
			st, err = grpchealth.NewHealthClient(conn).Check(ctx, &grpchealth.HealthCheckRequest{Service: name})
			if err == nil && st.GetStatus() == grpchealth.HealthCheckResponse_SERVING {
				break
			}
			time.Sleep(20 * time.Millisecond)
		}
		h.Check(err == nil && st.GetStatus() == grpchealth.HealthCheckResponse_SERVING, "C27", "the health of %q is %v %v", name, st, err)
	}
	stream, err := reflectionpb.NewServerReflectionClient(conn).ServerReflectionInfo(ctx)
	h.Check(err == nil, "C27", "reflection: %v", err)
	h.Check(stream.Send(&reflectionpb.ServerReflectionRequest{MessageRequest: &reflectionpb.ServerReflectionRequest_FileContainingSymbol{FileContainingSymbol: string(svc.FullName())}}) == nil, "C27", "reflection")
	res, err := stream.Recv()
	h.Check(err == nil, "C27", "reflection: %v", err)
	files := &descriptorpb.FileDescriptorSet{}
	for _, b := range res.GetFileDescriptorResponse().GetFileDescriptorProto() {
		f := &descriptorpb.FileDescriptorProto{}
		Must(proto.Unmarshal(b, f))
		files.File = append(files.File, f)
	}
	found := false
	for _, f := range files.File {
		for _, s := range f.Service {
			found = found || f.GetPackage()+"."+s.GetName() == string(svc.FullName()) && len(s.Method) == len(rpcs)
		}
	}
	h.Check(found, "C27", "reflection does not describe the service")
	h.Nontrivial()
}

// ---------------------------------------------------------------------------------------------------------------
// requests

// rpcOp is a request in its encoded form, or a step of the clock or of the housekeeping.
type rpcOp struct {
	Method string // or advance, sweep, raw
	Data   []byte
	Ms     int64
}

type rpcCase struct{ Ops []rpcOp }

var rpcMethods = []string{"Add", "Add", "Add", "Pull", "Pull", "Pull", "Ack", "Ack", "Nack", "Remove", "Count", "GetById", "EditQueue", "GetQueue", "Flush"}

func requestType(method string) string {
	if method == "Nack" {
		method = "Ack"
	}
	return method + "Request"
}

// genRequest draws a request whose values mostly refer to the few messages of the case. wild: anything goes.
func genRequest(t *rapid.T, method string, wild bool) proto.Message {
	w := func() bool { return wild && rapid.IntRange(0, 3).Draw(t, "wild") == 0 }
	q := func() string {
		if w() {
			return wildString(t, "queue")
		}
		return rapid.SampledFrom([]string{"qa", "qb", "q::c"}).Draw(t, "queue")
	}
	id := func() string {
		if w() {
			return wildString(t, "id")
		}
		return rapid.SampledFrom([]string{"a", "b", "c", "d"}).Draw(t, "id")
	}
	ms := func(n string) int64 {
		if w() {
			return wildInt(t, n)
		}
		return rapid.SampledFrom([]int64{0, 0, 10, 1000, 60000}).Draw(t, n)
	}
	sc := func(n string) float64 {
		if w() {
			if rapid.IntRange(0, 3).Draw(t, n+"special") == 0 {
				return rapid.SampledFrom([]float64{math.NaN(), math.Inf(1), math.Inf(-1)}).Draw(t, n)
			}
			return anyScore(t, n)
		}
		return float64(rapid.SampledFrom([]int{0, 0, 1, 2, 5, 1000, 5000}).Draw(t, n))
	}
	str := func(n string) string {
		if w() {
			return wildString(t, n)
		}
		return rapid.SampledFrom([]string{"", n, n + "2"}).Draw(t, n)
	}
	switch method {
	case "Add":
		r := &deckard.AddRequest{}
		for n := rapid.IntRange(0, 4).Draw(t, "messages"); n > 0; n-- {
			m := &deckard.AddMessage{Id: id(), Queue: q(), Timeless: rapid.Bool().Draw(t, "timeless"), TtlMinutes: rapid.SampledFrom([]int64{0, 1, 60, 100000}).Draw(t, "ttl"),
				Description: str("description"), StringPayload: str("payload"), Score: sc("score")}
			if w() {
				m.TtlMinutes = wildInt(t, "ttl")
			}
			if rapid.Bool().Draw(t, "hasMetadata") {
				m.Metadata = map[string]string{str("key"): str("value"), "k": "v"}
			}
			if rapid.Bool().Draw(t, "hasPayload") {
				m.Payload = map[string]*anypb.Any{str("key"): {TypeUrl: str("url"), Value: []byte(str("bytes"))}}
			}
			r.Messages = append(r.Messages, m)
		}
		return r
	case "Pull":
		r := &deckard.PullRequest{Queue: q(), Amount: rapid.SampledFrom([]int32{0, 1, 2, 5, 1000}).Draw(t, "amount"), AckDeadlineMs: ms("deadline")}
		if w() {
			r.Amount = int32(wildInt(t, "amount"))
		}
		if rapid.IntRange(0, 2).Draw(t, "filter") == 0 {
			r.MinScore, r.MaxScore, r.ScoreFilter = sc("min"), sc("max"), ms("filter")
		}
		return r
	case "Ack", "Nack":
		return &deckard.AckRequest{Id: id(), Queue: q(), Reason: str("reason"), ScoreSubtract: sc("subtract"), Breakpoint: str("breakpoint"), LockMs: ms("lock"),
			RemoveMessage: rapid.IntRange(0, 5).Draw(t, "remove") == 0, Score: sc("score")}
	case "Remove":
		r := &deckard.RemoveRequest{Queue: q()}
		for n := rapid.IntRange(0, 3).Draw(t, "ids"); n > 0; n-- {
			r.Ids = append(r.Ids, id())
		}
		return r
	case "Count":
		return &deckard.CountRequest{Queue: rapid.SampledFrom([]string{"", q()}).Draw(t, "all")}
	case "GetById":
		return &deckard.GetByIdRequest{Id: id(), Queue: q()}
	case "EditQueue":
		r := &deckard.EditQueueRequest{Queue: q()}
		if rapid.IntRange(0, 5).Draw(t, "configuration") > 0 {
			r.Configuration = &deckard.QueueConfiguration{MaxElements: rapid.SampledFrom([]int64{-1, 0, 1, 2, 3, 100}).Draw(t, "max")}
			if w() {
				r.Configuration.MaxElements = wildInt(t, "max")
			}
		}
		return r
	case "GetQueue":
		return &deckard.GetQueueRequest{Queue: q()}
	case "Flush":
		return &deckard.FlushRequest{}
	}
	Must(fmt.Errorf("unknown method %s", method))
	return nil
}

func genRPC(wild bool) func(t *rapid.T) rpcCase {
	return func(t *rapid.T) rpcCase {
		var c rpcCase
		for n := rapid.IntRange(1, 30).Draw(t, "ops"); n > 0; n-- {
			op := rpcOp{}
			k := rapid.IntRange(0, 19).Draw(t, "kind")
			switch {
			case k < 2:
				op.Method, op.Ms = "advance", 2*rapid.SampledFrom([]int64{1, 5, 500, 30000, 60000 * 60}).Draw(t, "ms")
			case k < 4:
				op.Method = "sweep"
			case k < 5 && wild:
				op.Method = "raw:" + rapid.SampledFrom(rpcMethods).Draw(t, "method")
				op.Data = rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(t, "bytes")
			default:
				op.Method = rapid.SampledFrom(rpcMethods).Draw(t, "method")
				if op.Method == "Flush" && rapid.IntRange(0, 3).Draw(t, "flush") > 0 {
					op.Method = "Pull"
				}
				b, err := proto.Marshal(genRequest(t, op.Method, wild))
				if err != nil {
					t.Skip("not well-formed")
				}
				op.Data = b
				if wild && rapid.IntRange(0, 9).Draw(t, "unknown") == 0 {
					// a field of a later version of the contract
					op.Data = protowire.AppendString(protowire.AppendTag(op.Data, protowire.Number(rapid.IntRange(100, 5000).Draw(t, "number")), protowire.BytesType), "x")
				}
			}
			c.Ops = append(c.Ops, op)
		}
		return c
	}
}

func responseType(method string) string {
	if method == "Nack" {
		method = "Ack"
	}
	return method + "Response"
}

// direct calls the handler without the network.
func direct(in *instance, method string, req proto.Message) (proto.Message, error) {
	s := in.svc
	switch r := req.(type) {
	case *deckard.AddRequest:
		return asMessage(s.Add(bg, r))
	case *deckard.PullRequest:
		return asMessage(s.Pull(bg, r))
	case *deckard.AckRequest:
		if method == "Nack" {
			return asMessage(s.Nack(bg, r))
		}
		return asMessage(s.Ack(bg, r))
	case *deckard.RemoveRequest:
		return asMessage(s.Remove(bg, r))
	case *deckard.CountRequest:
		return asMessage(s.Count(bg, r))
	case *deckard.GetByIdRequest:
		return asMessage(s.GetById(bg, r))
	case *deckard.EditQueueRequest:
		return asMessage(s.EditQueue(bg, r))
	case *deckard.GetQueueRequest:
		return asMessage(s.GetQueue(bg, r))
	case *deckard.FlushRequest:
		return asMessage(s.Flush(bg, r))
	}
	Must(fmt.Errorf("unknown request %T", req))
	return nil, nil
}

func asMessage[T proto.Message](m T, err error) (proto.Message, error) {
	if err != nil {
		return nil, err
	}
	return m, nil
}

func sweepAll(in *instance) {
	_ = queue.ProcessTimeoutMessages(bg, in.q)
	queue.ProcessLockPool(bg, in.q)
	now := time.Unix(0, clockNs.Load())
	_, _ = queue.RemoveTTLMessages(bg, in.q, &now)
	_, _ = queue.RemoveExceedingMessages(bg, in.q)
	queue.RecoveryMessagesPool(bg, in.q)
	queue.ComputeMetrics(bg, in.q)
}

// clientCall calls the method through the generated client.
func clientCall(ctx context.Context, c deckard.DeckardClient, method string, req proto.Message) (proto.Message, error) {
	switch r := req.(type) {
	case *deckard.AddRequest:
		return asMessage(c.Add(ctx, r))
	case *deckard.PullRequest:
		return asMessage(c.Pull(ctx, r))
	case *deckard.AckRequest:
		if method == "Nack" {
			return asMessage(c.Nack(ctx, r))
		}
		return asMessage(c.Ack(ctx, r))
	case *deckard.RemoveRequest:
		return asMessage(c.Remove(ctx, r))
	case *deckard.CountRequest:
		return asMessage(c.Count(ctx, r))
	case *deckard.GetByIdRequest:
		return asMessage(c.GetById(ctx, r))
	case *deckard.EditQueueRequest:
		return asMessage(c.EditQueue(ctx, r))
	case *deckard.GetQueueRequest:
		return asMessage(c.GetQueue(ctx, r))
	case *deckard.FlushRequest:
		return asMessage(c.Flush(ctx, r))
	}
	return nil, nil
}

// execRPCDiff: requests over the network have the effect and the answer of the handler of their name.
func execRPCDiff(h *H, c rpcCase) {
	t := startMs
	setClock(t)
	h.Cleanup(func() { setClock(0) })
	a, b := newInstance("memory"), newInstance("memory")
	addr, err := serve(h, a)
	h.Check(err == nil, "C27", "the server does not start: %v", err)
	conn := dial(h, addr, nil)
	client := deckard.NewDeckardClient(conn)
	svc := string(published().file.Services().Get(0).FullName())
	for i, op := range c.Ops {
		switch op.Method {
		case "advance":
			t += op.Ms
			setClock(t)
			continue
		case "sweep":
			setClock(t + 1)
			sweepAll(a)
			sweepAll(b)
			t += 2
			setClock(t)
			continue
		}
		req := goMessage(h, requestType(op.Method))
		Must(proto.Unmarshal(op.Data, req))
		h.Label(op.Method)
		want, wantErr := direct(b, op.Method, proto.Clone(req))
		ctx, cancel := callCtx()
		var got proto.Message
		var gotErr error
		if i%2 == 0 {
			got, gotErr = clientCall(ctx, client, op.Method, req)
		} else {
			// as a client generated from the published contract
			got = goMessage(h, responseType(op.Method))
			gotErr = conn.Invoke(ctx, "/"+svc+"/"+op.Method, req, got)
		}
		cancel()
		h.Logf("%s %s -> %v %v", op.Method, dumpText(req), got, gotErr)
		h.Check(status.Code(gotErr) == status.Code(wantErr), "C27", "%s returned %v instead of %v", op.Method, gotErr, wantErr)
		if wantErr != nil {
			h.Check(status.Convert(gotErr).Message() == status.Convert(wantErr).Message(), "C27", "%s returned %v instead of %v", op.Method, gotErr, wantErr)
			h.Label("error")
			continue
		}
		h.Nontrivial()
		h.Check(dumpText(got) == dumpText(wire(want)), "C27", "%s returned %s instead of %s", op.Method, dumpText(got), dumpText(want))
	}
	h.Check(storageDump(a) == storageDump(b), "C27", "the requests had other effects over the network: %s instead of %s", storageDump(a), storageDump(b))
}

func storageDump(in *instance) string {
	ms, err := in.storage.Find(bg, &storage.FindOptions{})
	Must(err)
	var out []string
	for _, m := range ms {
		m.InternalId = nil
		numbers := fmt.Sprint(m.Score, m.LastScoreSubtract, m.TotalScoreSubtract) // may have no JSON form
		m.Score, m.LastScoreSubtract, m.TotalScoreSubtract = 0, 0, 0
		b, err := json.Marshal(m)
		if err != nil { // years without a JSON form
			numbers += m.ExpiryDate.String()
			m.ExpiryDate = time.Time{}
			b, err = json.Marshal(m)
		}
		Must(err)
		out = append(out, string(b)+numbers)
	}
	sort.Strings(out)
	return strings.Join(out, "\n")
}

// ---------------------------------------------------------------------------------------------------------------
// size limits

type limitCase struct {
	Recv, Send int // 0: the default
	ReqDelta   int // size of the request minus the limit
	ResDelta   int
}

func genLimit(t *rapid.T) limitCase {
	d := func(n string) int {
		return rapid.OneOf(rapid.IntRange(-3, 3), rapid.IntRange(-400, 400)).Draw(t, n)
	}
	return limitCase{rapid.IntRange(600, 30000).Draw(t, "recv"), rapid.IntRange(600, 30000).Draw(t, "send"), d("request"), d("response")}
}

func execLimit(h *H, c limitCase) {
	const def = 4194304
	recv, send := c.Recv, c.Send
	config.Configure(true)
	h.Cleanup(func() { config.Configure(true) })
	if recv != 0 {
		config.GrpcServerMaxRecvMsgSize.Set(recv)
	} else {
		recv = def
	}
	if send != 0 {
		config.GrpcServerMaxSendMsgSize.Set(send)
	} else {
		send = def
	}
	setClock(startMs)
	h.Cleanup(func() { setClock(0) })
	in := newInstance("memory")
	addr, err := serve(h, in)
	h.Check(err == nil, "C27", "the server does not start: %v", err)
	client := deckard.NewDeckardClient(dial(h, addr, nil))
	ctx, cancel := callCtx()
	defer cancel()
	sized := func(target int, f func(s string) proto.Message) proto.Message {
		n := target
		for i := 0; i < 20; i++ {
			m := f(strings.Repeat("x", n))
			d := proto.Size(m) - target
			if d == 0 {
				return m
			}
			n -= d
			if n < 0 {
				n = 0
			}
		}
		return nil
	}
	req := sized(recv+c.ReqDelta, func(s string) proto.Message {
		return &deckard.AddRequest{Messages: []*deckard.AddMessage{{Id: "a", Queue: "q", Timeless: true, StringPayload: s}}}
	})
	if req != nil {
		_, err = client.Add(ctx, req.(*deckard.AddRequest))
		n, cerr := client.Count(ctx, &deckard.CountRequest{Queue: "q"})
		h.Check(cerr == nil, "C27", "count: %v", cerr)
		if c.ReqDelta <= 0 {
			h.Check(err == nil && n.GetCount() == 1, "C27", "a request of %d bytes with a limit of %d failed: %v", recv+c.ReqDelta, recv, err)
			h.Label("request passes")
		} else {
			h.Check(status.Code(err) == codes.ResourceExhausted && n.GetCount() == 0, "C27", "a request of %d bytes with a limit of %d was not rejected: %v, %d stored", recv+c.ReqDelta, recv, err, n.GetCount())
			h.Label("request rejected")
		}
	}
	res := sized(send+c.ResDelta, func(s string) proto.Message {
		return &deckard.GetByIdResponse{Found: true, HumanReadablePayload: map[string]string{}, Message: &deckard.Message{Id: "b", Queue: "q", Score: 5, StringPayload: s}}
	})
	if res != nil {
		// stored without the network, which has other limits
		_, err = rpc(in.svc.Add, &deckard.AddRequest{Messages: []*deckard.AddMessage{{Id: "b", Queue: "q", Timeless: true, Score: 5, StringPayload: res.(*deckard.GetByIdResponse).Message.StringPayload}}})
		Must(err)
		got, err := client.GetById(ctx, &deckard.GetByIdRequest{Id: "b", Queue: "q"})
		if c.ResDelta <= 0 {
			h.Check(err == nil && dumpText(got) == dumpText(res), "C27", "a response of %d bytes with a limit of %d failed: %v", send+c.ResDelta, send, err)
			h.Label("response passes")
		} else {
			h.Check(status.Code(err) == codes.ResourceExhausted, "C27", "a response of %d bytes with a limit of %d was not rejected: %v", send+c.ResDelta, send, err)
			h.Label("response rejected")
		}
	}
	h.Nontrivial()
}

// ---------------------------------------------------------------------------------------------------------------
// C28

type rawCodec struct{}

func (rawCodec) Marshal(v any) ([]byte, error) {
	if b, ok := v.(*[]byte); ok {
		return *b, nil
	}
	return proto.Marshal(v.(proto.Message))
}

func (rawCodec) Unmarshal(d []byte, v any) error {
	if b, ok := v.(*[]byte); ok {
		*b = append([]byte{}, d...)
		return nil
	}
	return proto.Unmarshal(d, v.(proto.Message))
}

func (rawCodec) Name() string { return "proto" }

func execRPCFuzz(backend string) func(h *H, c rpcCase) {
	return func(h *H, c rpcCase) {
		t := startMs
		setClock(t)
		h.Cleanup(func() { setClock(0) })
		in := newInstance(backend)
		addr, err := serve(h, in)
		h.Check(err == nil, "C28", "the server does not start: %v", err)
		conn := dial(h, addr, nil, grpc.WithDefaultCallOptions(grpc.ForceCodec(rawCodec{}), grpc.MaxCallRecvMsgSize(1<<30), grpc.WaitForReady(true)))
		far := map[string]bool{} // queues with a message which comes back after the end of the case
		answered := func(op rpcOp, err error) {
			switch status.Code(err) {
			case codes.Unavailable, codes.DeadlineExceeded, codes.Canceled, codes.Unimplemented:
				h.Fail("C28", "%s was not answered: %v", op.Method, err)
			}
		}
		for _, op := range c.Ops {
			switch {
			case op.Method == "advance":
				t += op.Ms
				setClock(t)
				continue
			case op.Method == "sweep":
				setClock(t + 1)
				if !sweepWithin(in, 30*time.Second) {
					h.Fail("C28", "the housekeeping did not end")
				}
				t += 2
				setClock(t)
				continue
			}
			before := storageDump(in)
			method := strings.TrimPrefix(op.Method, "raw:")
			raw := method != op.Method
			data := op.Data
			var out []byte
			ctx, cancel := callCtx()
			err := conn.Invoke(ctx, "/blipai.deckard.Deckard/"+method, &data, &out)
			cancel()
			req := goMessage(h, requestType(method))
			decodable := proto.Unmarshal(op.Data, req) == nil
			h.Logf("%s %s -> %v", op.Method, dumpText(req), err)
			answered(op, err)
			if raw {
				h.Label("raw")
			}
			if !decodable {
				h.Check(err != nil, "C28", "a request which cannot be decoded succeeded")
				h.Check(storageDump(in) == before, "C28", "a request which cannot be decoded changed the storage")
				continue
			}
			if err != nil {
				h.Check(status.Code(err) != codes.Internal || !strings.Contains(err.Error(), "marshal"), "C28", "the response of %s cannot be encoded: %v", method, err)
				h.Label("rejected " + method)
				h.Nontrivial()
				after := storageDump(in)
				h.Check(after == before, "C28", "a rejected %s changed the stored messages from\n%s\nto\n%s", method, before, after)
				continue
			}
			res := goMessage(h, responseType(method))
			h.Check(proto.Unmarshal(out, res) == nil, "C28", "the response of %s cannot be decoded", method)
			if !raw {
				h.Label("answered " + method)
			}
			const long = int64(1) << 40
			switch r := req.(type) {
			case *deckard.PullRequest:
				if r.AckDeadlineMs > long {
					far[r.Queue] = true
				}
				p := res.(*deckard.PullResponse)
				h.Check(len(p.Messages) <= 1000, "C28", "%d messages pulled", len(p.Messages))
				for _, m := range p.Messages {
					h.Check(m.Queue == r.Queue, "C28", "a message of %q was returned for %q", m.Queue, r.Queue)
				}
			case *deckard.AckRequest:
				if r.LockMs > long {
					far[r.Queue] = true
				}
			case *deckard.FlushRequest:
				far = map[string]bool{}
			}
		}
		// every stored message can still be delivered, unless it comes back later than that
		t += 2 * (int64(1) << 40)
		setClock(t + 1)
		if !sweepWithin(in, 60*time.Second) {
			h.Fail("C28", "the housekeeping did not end")
		}
		t += 2
		setClock(t)
		ms, err := in.storage.Find(bg, &storage.FindOptions{})
		Must(err)
		stored := map[string]map[string]bool{}
		for _, m := range ms {
			if stored[m.Queue] == nil {
				stored[m.Queue] = map[string]bool{}
			}
			if !m.ExpiryDate.Before(time.UnixMilli(t)) {
				stored[m.Queue][m.ID] = true
			}
		}
		for q, ids := range stored {
			if far[q] {
				continue
			}
			if q == "" {
				h.Fail("C28", "a message was stored without a queue")
			}
			got := map[string]bool{}
			for i := 0; i < 100; i++ {
				res, err := rpc(in.svc.Pull, &deckard.PullRequest{Queue: q, Amount: 1000})
				h.Check(err == nil, "C28", "pull of %q: %v", q, err)
				if len(res.Messages) == 0 {
					break
				}
				for _, m := range res.Messages {
					h.Check(!got[m.Id], "C28", "%q of %q was delivered twice", m.Id, q)
					got[m.Id] = true
				}
			}
			for id := range ids {
				h.Check(got[id], "C28", "%q of %q is stored but is not delivered anymore", id, q)
				h.Label("delivered at the end")
			}
		}
	}
}

func sweepWithin(in *instance, d time.Duration) bool {
	done := make(chan bool)
	go func() { sweepAll(in); close(done) }()
	select {
	case <-done:
		return true
	case <-time.After(d):
		return false
	}
}

var _ cache.Cache

func init() {
	register("C27", "requests which reached their handler, or a message with fields, or a size near a limit",
		sub("contract", 0, 0, func(t *rapid.T) contractCase { return contractCase{} }, execContract, contractCase{}).serial(),
		sub("messages", 40000, 1500000, genWire, execWire),
		sub("requests", 2400, 60000, genRPC(false), execRPCDiff),
		sub("limits", 1200, 30000, genLimit, execLimit, limitCase{0, 0, 0, 0}, limitCase{0, 0, 1, 1}))
	register("C28", "a request which was rejected",
		sub("memory", 5000, 150000, genRPC(true), execRPCFuzz("memory")))
}
