HELPER='''
// link is the server's side of the connection of a client.
type link struct {
	t    *testing.T
	c    *Client
	conn net.Conn
	in   chan []byte // what the client sent, packet by packet
}

func newLink(t *testing.T, wrap func(net.Conn) net.Conn) *link {
	a, b := net.Pipe()
	var cc net.Conn = a
	if wrap != nil {
		cc = wrap(a)
	}
	l := &link{t: t, c: NewClient(cc), conn: b, in: make(chan []byte, 1000)}
	go func() {
		defer close(l.in)
		for {
			head := make([]byte, 1)
			if _, err := io.ReadFull(b, head); err != nil {
				return
			}
			n, shift := 0, 0
			for {
				x := make([]byte, 1)
				if _, err := io.ReadFull(b, x); err != nil {
					return
				}
				n |= int(x[0]&0x7f) << shift
				shift += 7
				if x[0]&0x80 == 0 {
					break
				}
			}
			body := make([]byte, n)
			if _, err := io.ReadFull(b, body); err != nil {
				return
			}
			l.in <- append(head, body...)
		}
	}()
	t.Cleanup(func() { a.Close(); b.Close() })
	return l
}

// next returns the next packet from the client, or nil if there is none for a while.
func (l *link) next() []byte {
	select {
	case p := <-l.in:
		return p
	case <-time.After(300 * time.Millisecond):
		return nil
	}
}

// feed sends packets to the client, which polls for each of them.
func (l *link) feed(pk ...[]byte) (err error) {
	for _, p := range pk {
		done := make(chan struct{})
		go func() {
			l.conn.SetWriteDeadline(time.Now().Add(2 * time.Second))
			l.conn.Write(p)
			close(done)
		}()
		ctx, cancel := context.WithTimeout(context.Background(), time.Second)
		err = l.c.Poll(ctx)
		cancel()
		<-done
		if err != nil {
			return err
		}
	}
	return nil
}

// connect connects the client; the server answers with connack.
func (l *link) connect(packet *packets.Connect, connack []byte) error {
	if packet == nil {
		packet = &packets.Connect{}
	}
	if connack == nil {
		connack = []byte{0x20, 3, 0, 0, 0}
	}
	go func() {
		l.conn.SetWriteDeadline(time.Now().Add(2 * time.Second))
		l.conn.Write(connack)
	}()
	ctx, cancel := context.WithTimeout(context.Background(), 2*time.Second)
	defer cancel()
	if err := l.c.Connect(ctx, packet); err != nil {
		return err
	}
	if p := l.next(); p == nil || p[0] != 0x10 {
		l.t.Fatalf("no CONNECT: %x", p)
	}
	return nil
}

func (l *link) mustConnect(packet *packets.Connect, connack []byte) {
	l.t.Helper()
	if err := l.connect(packet, connack); err != nil {
		l.t.Fatal("connect:", err)
	}
}

// publish encodes a PUBLISH from the server.
func pubBytes(flags byte, topic string, id int, payload string) []byte {
	var b bytes.Buffer
	b.Write([]byte{byte(len(topic) >> 8), byte(len(topic))})
	b.WriteString(topic)
	if flags&6 != 0 {
		b.Write([]byte{byte(id >> 8), byte(id)})
	}
	b.WriteByte(0)
	b.WriteString(payload)
	return append([]byte{0x30 | flags, byte(b.Len())}, b.Bytes()...)
}

var _ = io.EOF
var _ = bytes.NewBuffer
'''
C="mqtt/client.go"
SEEDS=[]
def s(id,prop,edits,needs,breaks,test,**k): SEEDS.append(dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,test=test,**k))

s("close-first-binding","C23",[(C,"""		if topicChan.id == channel.id {
			delete(c.topicChans, key)
		}
""","""		if topicChan.id != channel.id {
			continue
		}
		delete(c.topicChans, key)
		break
""")],"an event channel bound to two filters, which is closed, and a publish that matches the filter left over","closing an event channel removes only one of its bindings, so a later publish is sent to the closed channel and panics",
'''
func TestDemo(t *testing.T) {
	l := newLink(t, nil)
	l.mustConnect(nil, nil)
	ch := l.c.CreateEventChannel(10)
	var topics []Topic
	for _, f := range []string{"a/b", "a/c"} {
		tp := Topic{}
		tp.Topic.SetFilter(f)
		tp.SetEventChannel(ch)
		topics = append(topics, tp)
	}
	go func() {
		p := l.next()
		l.conn.Write([]byte{0x90, 5, p[1], p[2], 0, 0, 0})
	}()
	done := make(chan error, 1)
	go func() {
		done <- l.c.Subscribe(context.Background(), topics)
	}()
	for i := 0; i < 20; i++ {
		ctx, cancel := context.WithTimeout(context.Background(), 50*time.Millisecond)
		l.c.Poll(ctx)
		cancel()
		select {
		case err := <-done:
			if err != nil {
				t.Fatal(err)
			}
			i = 20
		default:
		}
	}
	l.c.CloseEventChannel(ch)
	for _, f := range []string{"a/b", "a/c"} {
		if err := l.feed(pubBytes(0, f, 0, "x")); err != nil {
			t.Fatal(err)
		}
	}
}
''')

s("connack-0x80","C24",[(C,"	if connack.ReasonCode >= 128 {","	if connack.ReasonCode > 128 {")],"a server that refuses the connection with reason code 0x80 (unspecified error)","Connect returns nil and enters the connected state although the server refused",
'''
func TestDemo(t *testing.T) {
	for _, code := range []byte{0x80, 0x81, 0x87} {
		l := newLink(t, nil)
		if err := l.connect(nil, []byte{0x20, 3, 0, code, 0}); err == nil || l.c.IsConnected() {
			t.Fatalf("refused with %x: %v, connected %v", code, err, l.c.IsConnected())
		}
	}
}
''')

s("ping-deadline-accumulates","C25",[(C,"""		// Extend the ping response deadline
		c.pingRespDeadline = time.Now().Add(""","""		// Extend the ping response deadline
		c.pingRespDeadline = c.pingRespDeadline.Add(""")],"several PINGRESPs that arrive faster than twice the keep-alive interval, then a server that stops answering","the ping deadline moves into the future by twice the interval with each PINGRESP, so a dead server is noticed far too late",
'''
func TestDemo(t *testing.T) {
	l := newLink(t, nil)
	l.mustConnect(&packets.Connect{KeepAlive: 1}, nil)
	for i := 0; i < 5; i++ {
		if err := l.feed([]byte{0xd0, 0}); err != nil {
			t.Fatal(err)
		}
	}
	time.Sleep(2500 * time.Millisecond)
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Millisecond)
	defer cancel()
	if err := l.c.Poll(ctx); err == nil {
		t.Fatal("the server was silent for more than twice the keep-alive interval and Poll reports nothing")
	}
}
''')

s("quota-swapped","C18",[(C,"	c.sendQuota = c.serverReceiveMaximum\n","	c.sendQuota = c.clientReceiveMaximum\n")],"a server with a receive maximum below the client's, and more publishes in flight than it allows","the client sends more unacknowledged publishes than the server's receive maximum",
'''
func TestDemo(t *testing.T) {
	l := newLink(t, nil)
	l.mustConnect(nil, []byte{0x20, 6, 0, 0, 3, 0x21, 0, 2})
	for i := 0; i < 3; i++ {
		ctx, cancel := context.WithTimeout(context.Background(), 300*time.Millisecond)
		err := l.c.Publish(ctx, &packets.Publish{Topic: "t", QoS: 1, Payload: []byte("x")})
		cancel()
		if i < 2 && err != nil {
			t.Fatal(err)
		}
		if i == 2 && err == nil {
			t.Fatal("a third publish was sent with a receive maximum of 2")
		}
	}
}
''')

s("disconnect-no-deadline","C26",[(C,"""	// Set I/O deadline
	if err = c.conn.SetDeadline(deadline); err != nil {
		return err
	}

	disconnect := &packets.Disconnect{}
""","""	// Set I/O deadline
	if ok {
		if err = c.conn.SetDeadline(deadline); err != nil {
			return err
		}
	}

	disconnect := &packets.Disconnect{}
""")],"a Poll with a deadline that passes, followed by Disconnect with a context without a deadline","Disconnect keeps the deadline of the earlier call, which has passed, and fails without sending",
'''
func TestDemo(t *testing.T) {
	l := newLink(t, nil)
	l.mustConnect(nil, nil)
	ctx, cancel := context.WithTimeout(context.Background(), 50*time.Millisecond)
	if err := l.c.Poll(ctx); err != nil {
		t.Fatal(err)
	}
	cancel()
	if err := l.c.Disconnect(context.Background(), false); err != nil {
		t.Fatal(err)
	}
	if p := l.next(); p == nil || p[0] != 0xe0 {
		t.Fatalf("no DISCONNECT: %x", p)
	}
}
''')

s("channel-id-unlocked","C13",[(C,"""	c.eventMutex.Lock()
	defer c.eventMutex.Unlock()

	if n <= 0 {
		n = 1
	}
""","""	if n <= 0 {
		n = 1
	}
"""),(C,"""	// Track this chan so fanout signalling can occur later
""","""	c.eventMutex.Lock()
	defer c.eventMutex.Unlock()

	// Track this chan so fanout signalling can occur later
""")],"two goroutines that create event channels at the same time","the identifier counter is read without the lock, so that two event channels can get the same identifier and one of them no events",
'''
// import "sync"

func TestDemo(t *testing.T) {
	l := newLink(t, nil)
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 500; j++ {
				l.c.CreateEventChannel(1)
			}
		}()
	}
	wg.Wait()
}
''',flags="-race",cgo="1")

s("store-after-send","C20",[(C,"""		if c.storage != nil {
			// Store this publish control packet
			if err = c.storage.Store(uint16(pub.PacketIdentifier), pub); err != nil {
				c.mutex.Unlock()
				return err
			}
		}
		c.inflight[""","""		c.inflight["""),(C,"""			c.mutex.Unlock()
		}
		return err
	}

	return
}

// nextPacketIdentifier""","""			c.mutex.Unlock()
		}
		return err
	}

	// Perform packet persistence operations
	if pub.QoS > 0 {
		c.mutex.Lock()
		if c.storage != nil {
			// Store this publish control packet
			err = c.storage.Store(uint16(pub.PacketIdentifier), pub)
		}
		c.mutex.Unlock()
	}

	return
}

// nextPacketIdentifier""")],"storage that fails (or a crash between sending and storing)","a PUBLISH is sent before it is stored, also when storing it fails",
'''
// import "errors"

type badStorage struct{}

func (badStorage) Store(uint16, any) error          { return errors.New("full") }
func (badStorage) Get(uint16) (any, error)          { return nil, errors.New("full") }
func (badStorage) Drop(uint16) error                { return errors.New("full") }

func TestDemo(t *testing.T) {
	l := newLink(t, nil)
	l.mustConnect(nil, nil)
	l.c.SetStorage(badStorage{})
	if err := l.c.Publish(context.Background(), &packets.Publish{Topic: "t", QoS: 1, Payload: []byte("x")}); err == nil {
		t.Fatal("no error")
	}
	if p := l.next(); p != nil {
		t.Fatalf("sent without being stored: %x", p)
	}
}
''')

s("receive-quota-cap","C19",[(C,"""	// Increment the receive quota counter so that more publishes (QoS > 0) can be received
	c.mutex.Lock()
	c.receiveQuota++
""","""	// Increment the receive quota counter so that more publishes (QoS > 0) can be received
	c.mutex.Lock()
	if c.receiveQuota < c.serverReceiveMaximum {
		c.receiveQuota++
	}
""")],"a server whose receive maximum is below the client's, QoS 1 publishes, and then as many QoS 2 publishes at once as the client's receive maximum allows","the unit of receive quota is not returned after a PUBACK, so the client disconnects from a server that keeps to the receive maximum",
'''
func TestDemo(t *testing.T) {
	l := newLink(t, nil)
	l.mustConnect(&packets.Connect{ReceiveMaximum: 4}, []byte{0x20, 6, 0, 0, 3, 0x21, 0, 2})
	for i := 1; i < 6; i++ {
		if err := l.feed(pubBytes(2, "t", i, "x")); err != nil {
			t.Fatalf("publish %d: %v", i, err)
		}
		if p := l.next(); p == nil || p[0] != 0x40 {
			t.Fatalf("publish %d: no PUBACK: %x", i, p)
		}
	}
	for i := 11; i < 15; i++ {
		if err := l.feed(pubBytes(4, "t", i, "x")); err != nil {
			t.Fatalf("publish %d: %v", i, err)
		}
		if p := l.next(); p == nil || p[0] != 0x50 {
			t.Fatalf("publish %d: no PUBREC: %x", i, p)
		}
	}
}
''')

s("pubcomp-only-known","C17",[(C,"""		if err = c.send(pubcomp); err != nil {
			return err
		}

		// Increment receive quota counter
		c.mutex.Lock()
		if _, ok := c.unreleased[pubrel.PacketIdentifier.Value()]; ok {
			delete(""","""		c.mutex.Lock()
		_, known := c.unreleased[pubrel.PacketIdentifier.Value()]
		c.mutex.Unlock()
		if known {
			if err = c.send(pubcomp); err != nil {
				return err
			}
		}

		// Increment receive quota counter
		c.mutex.Lock()
		if _, ok := c.unreleased[pubrel.PacketIdentifier.Value()]; ok {
			delete(""")],"a PUBREL that the server repeats because the PUBCOMP was lost","the repeated PUBREL is not answered with a PUBCOMP, so the server repeats it forever",
'''
func TestDemo(t *testing.T) {
	l := newLink(t, nil)
	l.mustConnect(nil, nil)
	if err := l.feed(pubBytes(4, "t", 7, "x")); err != nil {
		t.Fatal(err)
	}
	if p := l.next(); p == nil || p[0] != 0x50 {
		t.Fatalf("no PUBREC: %x", p)
	}
	for i := 0; i < 2; i++ {
		if err := l.feed([]byte{0x62, 2, 0, 7}); err != nil {
			t.Fatal(err)
		}
		if p := l.next(); p == nil || p[0] != 0x70 {
			t.Fatalf("PUBREL %d: no PUBCOMP: %x", i, p)
		}
	}
}
''')

s("chunked-writes","C14",[(C,"""	// Finally, write to the open connection
	var n int
	if n, err = c.conn.Write(buf.Bytes()); err != nil {
		if n > 0 {
			// The control packet was cut short, so the server would take the next one for the rest of it.
			c.closeConn()
		}
		return err
	}
""","""	// Finally, write to the open connection. Large packets are written in pieces.
	for buf.Len() > 0 {
		var n int
		if n, err = c.conn.Write(buf.Next(1024)); err != nil {
			if n > 0 {
				// The control packet was cut short, so the server would take the next one for the rest of it.
				c.closeConn()
			}
			return err
		}
	}
""")],"a packet of more than 1024 bytes and a write that times out between two pieces of it","a packet is cut short and the connection stays in use, so the server takes the next packet for the rest of it",
'''
// import "errors"

type cutConn struct {
	net.Conn
	writes int
}

func (c *cutConn) Write(b []byte) (int, error) {
	c.writes++
	if c.writes == 3 {
		return 0, errors.New("timed out")
	}
	return c.Conn.Write(b)
}

func TestDemo(t *testing.T) {
	l := newLink(t, func(c net.Conn) net.Conn { return &cutConn{Conn: c} })
	l.mustConnect(nil, nil)
	l.c.Publish(context.Background(), &packets.Publish{Topic: "t", Payload: make([]byte, 1500)})
	l.c.KeepAlive()
	for {
		p := l.next()
		if p == nil {
			break
		}
		if p[0] == 0x30 && !bytes.Equal(p[5:], make([]byte, 1500)) {
			t.Fatalf("a PUBLISH contains another packet: % x", p[len(p)-20:])
		}
	}
	if n := l.c.conn.(*cutConn).writes; n > 3 {
		t.Fatalf("%d writes to the connection, some of them after a packet was cut short", n)
	}
}
''')

# ---------------------------------------------------------------- packets
P="mqtt/packets/"
PR=P+"primitives/"
PKG=dict(pkg="mqtt/packets",nohelper=True)
def pk(imports,body): return "package packets\n\nimport (\n"+"".join('\t"%s"\n'%i for i in ["testing"]+imports)+")\n"+body

s("publish-length-before-content-type","C01",[(P+"publish.go","""	if len(p.ContentType) > 0 {
		propertiesLen += p.ContentType.Length(true)
	}

	variableHeaderLen += propertiesLen.Length(false) + propertiesLen
""","""	variableHeaderLen += propertiesLen.Length(false)

	if len(p.ContentType) > 0 {
		propertiesLen += p.ContentType.Length(true)
	}

	variableHeaderLen += propertiesLen
""")],"a PUBLISH whose properties reach 128 bytes only together with the content type","the remaining length counts one byte too few for the property length",pk(["bytes"],'''
func TestDemo(t *testing.T) {
	for _, n := range []int{10, 124, 125, 126, 200} {
		p := &Publish{Topic: "t", Payload: []byte("xyz")}
		for i := 0; i < n; i++ {
			p.ContentType += "c"
		}
		var b bytes.Buffer
		if _, err := p.WriteTo(&b); err != nil {
			t.Fatal(err)
		}
		var h FixedHeader
		m, err := h.ReadFrom(bytes.NewReader(b.Bytes()))
		if err != nil || int(h.Remaining)+int(m) != b.Len() {
			t.Fatalf("content type of %d bytes: remaining length %d, but %d bytes follow", n, h.Remaining, b.Len()-int(m))
		}
	}
}
'''),**PKG)

s("varint-length-boundary","C08",[(PR+"varint.go","	} else if *v < 2_097_152 {\n","	} else if *v <= 2_097_152 {\n")],"a length of exactly 2,097,152","the length of a variable byte integer is reported as 3 although 4 bytes are written",'package primitives\n\nimport (\n\t"bytes"\n\t"testing"\n)\n'+'''
func TestDemo(t *testing.T) {
	for _, x := range []uint32{0, 127, 128, 16383, 16384, 2097151, 2097152, 2097153, 268435455} {
		v := VariableByteInt(x)
		var b bytes.Buffer
		if _, err := v.WriteTo(&b); err != nil {
			t.Fatal(err)
		}
		if int(v.Length(false)) != b.Len() {
			t.Fatalf("%d: length %d, %d bytes written", x, v.Length(false), b.Len())
		}
	}
}
''',pkg="mqtt/packets/primitives",nohelper=True)

s("subscription-id-one-byte","C03",[(P+"publish.go","""			if count, err = p.SubscriptionIdentifier.ReadFrom(r); err != nil {
				return 0, err
			}
""","""			var id primitives.PrimitiveByte
			if count, err = id.ReadFrom(r); err != nil {
				return 0, err
			}
			p.SubscriptionIdentifier = primitives.VariableByteInt(id)
""")],"a subscription identifier above 127","the subscription identifier is read as one byte, the rest of it as a property",pk(["bytes"],'''
func TestDemo(t *testing.T) {
	for _, v := range []int{1, 127, 128, 300} {
		id := []byte{byte(v)}
		if v > 127 {
			id = []byte{byte(v&127) | 128, byte(v >> 7)}
		}
		body := append([]byte{0, 1, 't', byte(1 + len(id)), 0x0b}, id...)
		p := Publish{}
		if _, err := p.ReadFrom(bytes.NewReader(append([]byte{0x30, byte(len(body))}, body...))); err != nil {
			t.Fatal(v, err)
		}
		if int(p.SubscriptionIdentifier) != v {
			t.Fatal(v, p.SubscriptionIdentifier)
		}
	}
}
'''),**PKG)

s("user-property-value-uncounted","C04",[(P+"unsuback.go","""			var count2 int64
			if count2, err = v.ReadFrom(r); err != nil {
				return 0, err
			}
			count += count2
""","""			if _, err = v.ReadFrom(r); err != nil {
				return 0, err
			}
""")],"an UNSUBACK with a user property","the decoder takes the reason codes for further properties",pk(["bytes"],'''
func TestDemo(t *testing.T) {
	body := []byte{0, 1, 7, 0x26, 0, 1, 'k', 0, 1, 'v', 0, 17}
	u := Unsuback{Header: FixedHeader{Header: 0xb0}}
	u.Header.Remaining = 12
	n, err := u.ReadFrom(bytes.NewReader(body))
	if err != nil || n != 12 || len(u.ReasonCodes) != 2 {
		t.Fatal(n, err, u)
	}
}
'''),**PKG)

s("varint-short-read","C05",[(PR+"varint.go","""		var b [1]byte
		if _, err = io.ReadFull(r, b[:]); err != nil {
			return 0, err
		}
		n++
""","""		b := make([]byte, 1)
		if _, err = r.Read(b); err != nil {
			return 0, err
		}
		n++
""")],"a reader that returns no byte and no error once, as the io.Reader contract allows","a byte that was not read is decoded as zero",'package primitives\n\nimport (\n\t"testing"\n)\n'+'''
type slow struct{ data []byte; n int }

func (s *slow) Read(b []byte) (int, error) {
	s.n++
	if s.n%2 == 1 {
		return 0, nil
	}
	b[0] = s.data[0]
	s.data = s.data[1:]
	return 1, nil
}

func TestDemo(t *testing.T) {
	var v VariableByteInt
	if n, err := v.ReadFrom(&slow{data: []byte{0x85, 0x01}}); err != nil || n != 2 || v != 133 {
		t.Fatal(n, err, v)
	}
}
''',pkg="mqtt/packets/primitives",nohelper=True)

s("auth-nil-user-properties","C06",[(P+"auth.go","""			if a.UserProperties == nil {
				a.UserProperties = make(primitives.PrimitiveStringMap)
			}
""","""			if a.UserProperties == nil && a.AuthenticationMethod != "" {
				a.UserProperties = make(primitives.PrimitiveStringMap)
			}
""")],"an AUTH packet whose user property comes before its authentication method","the client panics when it stores the property in a nil map",pk(["bytes"],'''
func TestDemo(t *testing.T) {
	props := []byte{0x26, 0, 1, 'k', 0, 1, 'v', 0x15, 0, 1, 'm'}
	body := append([]byte{0x18, byte(len(props))}, props...)
	a := Auth{}
	a.Header.SetType(AUTH)
	a.Header.Remaining = 13
	if _, err := a.ReadFrom(bytes.NewReader(body)); err != nil {
		t.Fatal(err)
	}
}
'''),**PKG)

s("string-write-error","C07",[(PR+"string.go","""	var count int
	if count, err = w.Write([]byte(*p)); err != nil {
		return 0, err
	}
	n += int64(count)

	return
}

func (p *PrimitiveString) WriteToAsProperty""","""	count, _ := io.WriteString(w, string(*p))
	n += int64(count)

	return
}

func (p *PrimitiveString) WriteToAsProperty""")],"a writer that fails after the length of a string","a string that was not written is reported as written",'package primitives\n\nimport (\n\t"errors"\n\t"testing"\n)\n'+'''
type full struct{ room int }

func (f *full) Write(b []byte) (int, error) {
	if len(b) > f.room {
		n := f.room
		f.room = 0
		return n, errors.New("full")
	}
	f.room -= len(b)
	return len(b), nil
}

func TestDemo(t *testing.T) {
	for room := 0; room < 7; room++ {
		s := PrimitiveString("hello")
		if _, err := s.WriteTo(&full{room}); err == nil {
			t.Fatalf("no error with room for %d bytes", room)
		}
	}
}
''',pkg="mqtt/packets/primitives",nohelper=True)

s("unsubscribe-empty-topics","C09",[(P+"unsubscribe.go","	if len(u.Topics) == 0 {\n","	if u.Topics == nil {\n")],"an UNSUBSCRIBE with an empty list of topics that is not nil","an UNSUBSCRIBE without topics is sent, a protocol error",pk(["bytes"],'''
func TestDemo(t *testing.T) {
	for _, l := range [][]Topic{nil, {}, make([]Topic, 0, 4)} {
		u := &Unsubscribe{PacketIdentifier: 1, Topics: l}
		var b bytes.Buffer
		if _, err := u.WriteTo(&b); err == nil {
			t.Fatalf("accepted: % x", b.Bytes())
		}
	}
}
'''),**PKG)

s("header-flags-kept","C10",[(P+"packet.go","""	f.Header &= ^(f.Header & 0x0F)
	f.Header |= flags & 0x0F
""","""	f.Header |= flags & 0x0F
""")],"a PUBLISH that is encoded again with other flags","flags of an earlier encoding (duplicate, retain, QoS) stay set",pk(["bytes"],'''
func TestDemo(t *testing.T) {
	p := &Publish{Topic: "t", QoS: QoS1, Duplicate: true, Retain: true, PacketIdentifier: 1}
	var b bytes.Buffer
	if _, err := p.WriteTo(&b); err != nil || b.Bytes()[0] != 0x3b {
		t.Fatal(err, b.Bytes())
	}
	p.Duplicate, p.Retain, p.QoS = false, false, QoS2
	b.Reset()
	if _, err := p.WriteTo(&b); err != nil || b.Bytes()[0] != 0x34 {
		t.Fatalf("%v %x", err, b.Bytes()[0])
	}
}
'''),**PKG)

s("duplicate-without-id","C02",[(P+"publish.go","""	if p.QoS > QoS0 {
		variableHeaderLen += p.PacketIdentifier.Length(false)
	}
""","""	hasIdentifier := p.QoS == QoS2 || p.QoS == QoS1 && !p.Duplicate
	if hasIdentifier {
		variableHeaderLen += p.PacketIdentifier.Length(false)
	}
"""),(P+"publish.go","""	if p.QoS > QoS0 {
		if count, err = p.PacketIdentifier.WriteTo(w); err != nil {
""","""	if hasIdentifier {
		if count, err = p.PacketIdentifier.WriteTo(w); err != nil {
""")],"a QoS 1 PUBLISH that is sent again with the duplicate flag","the packet identifier is left out, the server takes the properties for it",pk(["bytes"],'''
func TestDemo(t *testing.T) {
	for _, q := range []QoS{QoS1, QoS2} {
		for _, d := range []bool{false, true} {
			p := &Publish{Topic: "t", QoS: q, Duplicate: d, PacketIdentifier: 0x1234}
			var b bytes.Buffer
			if _, err := p.WriteTo(&b); err != nil || !bytes.Equal(b.Bytes()[2:], []byte{0, 1, 't', 0x12, 0x34, 0}) {
				t.Fatalf("%v %v: %v % x", q, d, err, b.Bytes())
			}
		}
	}
}
'''),**PKG)

s("disconnect-reason-without-expiry","C30",[(P+"disconnect.go","""	// Write reason code
	if count, err = d.ReasonCode.WriteTo(w); err != nil {
""","""	// Write reason code
	reason := d.ReasonCode
	if reason == 0x04 && d.SessionExpiryInterval > 0 {
		reason = 0
	}
	if count, err = reason.WriteTo(w); err != nil {
""")],"a DISCONNECT that asks for the will and has a session expiry interval","the reason code 0x04 is not carried, so the will is not published",pk(["bytes"],'''
func TestDemo(t *testing.T) {
	for _, e := range []uint32{0, 10} {
		d := &Disconnect{ReasonCode: 0x04}
		*(*uint32)(&d.SessionExpiryInterval) = e
		var b bytes.Buffer
		if _, err := d.WriteTo(&b); err != nil {
			t.Fatal(err)
		}
		var g Disconnect
		m, err := g.Header.ReadFrom(&b)
		if err != nil || m != 2 {
			t.Fatal(m, err)
		}
		if _, err := g.ReadFrom(&b); err != nil || g.ReasonCode != 0x04 || uint32(g.SessionExpiryInterval) != e {
			t.Fatal(err, g)
		}
	}
}
'''),**PKG)

s("payload-copied-from-stream","C36",[(P+"publish.go","""		if count, err := w.Write(p.Payload); err != nil {
			return 0, err
		} else {
			n += int64(count)
		}
""","""		if count, err = io.CopyN(w, p, int64(len(p.Payload))); err != nil {
			return 0, err
		}
		n += count
""")],"a PUBLISH that is encoded twice","encoding a PUBLISH moves its read position, so that it cannot be encoded again",pk(["bytes"],'''
func TestDemo(t *testing.T) {
	p := &Publish{Topic: "t", Payload: []byte("payload")}
	var a, b bytes.Buffer
	if _, err := p.WriteTo(&a); err != nil {
		t.Fatal(err)
	}
	if _, err := p.WriteTo(&b); err != nil || !bytes.Equal(a.Bytes(), b.Bytes()) {
		t.Fatalf("%v % x % x", err, a.Bytes(), b.Bytes())
	}
}
'''),**PKG)

s("properties-read-as-block","C38",[(P+"suback.go","""	remaining := int64(propertiesLen)
""","""	block := make([]byte, propertiesLen)
	remaining := int64(len(block))
	if remaining > 0 {
		// Read all of the properties at once
		if _, err = io.ReadFull(r, block); err != nil {
			return 0, err
		}
		r = io.MultiReader(bytes.NewReader(block), r)
	}
"""),(P+"suback.go",'import (\n','import (\n\t"bytes"\n'),(P+"suback.go","	if body.N == 0 {","	if body.N <= 0 {")],"a SUBACK of a few bytes that declares a property length of 256 MiB","a packet of a few bytes makes the client allocate 256 MiB",pk(["bytes","runtime"],'''
func TestDemo(t *testing.T) {
	body := []byte{0, 1, 0xff, 0xff, 0xff, 0x7f, 0, 0}
	s := Suback{}
	s.Header.SetType(SUBACK)
	s.Header.Remaining = 8
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	if _, err := s.ReadFrom(bytes.NewReader(body)); err == nil {
		t.Fatal("accepted")
	}
	runtime.ReadMemStats(&b)
	if n := b.TotalAlloc - a.TotalAlloc; n > 1<<20 {
		t.Fatalf("%d bytes allocated for a packet of 10 bytes", n)
	}
}
'''),**PKG)

s("read-overshoots","C40",[(P+"publish.go","""	n = copy(buf, p.Payload[p.offset:])
	p.offset += n
""","""	n = copy(buf, p.Payload[p.offset:])
	p.offset += len(buf)
""")],"a payload that grows after it was read with a buffer larger than what was left","bytes that are added to the payload are skipped",pk([],'''
func TestDemo(t *testing.T) {
	p := &Publish{Payload: []byte("abc")}
	buf := make([]byte, 5)
	if n, err := p.Read(buf); n != 3 || err != nil {
		t.Fatal(n, err)
	}
	p.Payload = append(p.Payload, "defgh"...)
	if n, err := p.Read(buf); n != 5 || err != nil || string(buf) != "defgh" {
		t.Fatal(n, err, string(buf[:n]))
	}
}
'''),**PKG)

s("drop-in-two-steps","C27",[("mqtt/storage/memory/memory.go","""	s.mutex.Lock()
	defer s.mutex.Unlock()

	for i, e := range s.store {
		if e.id == identifier {
			// Remove the entry by not including it in the re-slice domains.
			s.store = append(s.store[:i], s.store[i+1:]...)
			return
		}
	}

	// No entry was found
	return storage.ErrNoEntry
""","""	i := s.find(identifier)
	if i < 0 {
		// No entry was found
		return storage.ErrNoEntry
	}

	s.mutex.Lock()
	defer s.mutex.Unlock()

	// Remove the entry by not including it in the re-slice domains.
	s.store = append(s.store[:i], s.store[i+1:]...)
	return
}

// find returns the index of the control packet with the specified identifier.
func (s *Storage) find(identifier uint16) int {
	s.mutex.Lock()
	defer s.mutex.Unlock()

	for i, e := range s.store {
		if e.id == identifier {
			return i
		}
	}
	return -1
""")],"two goroutines that drop records at the same time","the index is stale when the record is removed, so another record is dropped, or the call panics",'package memory\n\nimport (\n\t"sync"\n\t"testing"\n)\n'+'''
func TestDemo(t *testing.T) {
	for round := 0; round < 300; round++ {
		s := NewStorage()
		for i := uint16(0); i < 200; i++ {
			s.Store(i, i)
		}
		var wg sync.WaitGroup
		var bad sync.Once
		failed := false
		for g := uint16(0); g < 4; g++ {
			wg.Add(1)
			go func(g uint16) {
				defer wg.Done()
				defer func() {
					if recover() != nil {
						bad.Do(func() { failed = true })
					}
				}()
				for i := g; i < 200; i += 5 {
					s.Drop(i)
				}
			}(g)
		}
		wg.Wait()
		if failed {
			t.Fatal("a Drop panicked")
		}
		for i := uint16(4); i < 200; i += 5 {
			if _, err := s.Get(i); err != nil {
				t.Fatalf("record %d is gone", i)
			}
		}
	}
}
''',pkg="mqtt/storage/memory",nohelper=True)

# ---- client, second batch

RECORDER='''
// recConn calls hooks around Write and Close.
type recConn struct {
	net.Conn
	mu     sync.Mutex
	closed bool
	late   int
	write  func(p []byte) (int, error, bool)
}

func (c *recConn) Write(p []byte) (int, error) {
	c.mu.Lock()
	if c.closed {
		c.late++
	}
	w := c.write
	c.mu.Unlock()
	if w != nil {
		if n, err, done := w(p); done {
			return n, err
		}
	}
	return c.Conn.Write(p)
}

func (c *recConn) Close() error {
	c.mu.Lock()
	c.closed = true
	c.mu.Unlock()
	return c.Conn.Close()
}
'''

s("shared-send-buffer","C37",[(C,"""	// Allocate a new buffer
	buf := bytes.NewBuffer(make([]byte, 0, 128))
""","""	// Start over with the buffer
	buf := sendBuffer
	buf.Reset()
"""),(C,"""func (c *Client) send(w io.WriterTo) (err error) {""","""// sendBuffer saves an allocation for each control packet. connMutex is held while it is in use.
var sendBuffer = bytes.NewBuffer(make([]byte, 0, 128))

func (c *Client) send(w io.WriterTo) (err error) {""")],"two clients in one process that send at the same time","the packet of one client overwrites that of the other while it is being written to the connection",
'''
// import "sync"
'''+RECORDER+'''
func TestDemo(t *testing.T) {
	var r *recConn
	a := newLink(t, func(c net.Conn) net.Conn { r = &recConn{Conn: c}; return r })
	b := newLink(t, nil)
	a.mustConnect(nil, nil)
	b.mustConnect(nil, nil)
	r.mu.Lock()
	r.write = func(p []byte) (int, error, bool) {
		if err := b.c.Publish(context.Background(), &packets.Publish{Topic: "b", Payload: []byte("BBBB")}); err != nil {
			t.Error(err)
		}
		return 0, nil, false
	}
	r.mu.Unlock()
	if err := a.c.Publish(context.Background(), &packets.Publish{Topic: "a", Payload: []byte("AAAA")}); err != nil {
		t.Fatal(err)
	}
	if p := a.next(); !bytes.HasSuffix(p, []byte("AAAA")) {
		t.Fatalf("%q", p)
	}
}
''')

s("response-channel-unbuffered","C22",[(C,"""	respChan := make(chan any, 1)
	c.responseChan[int(subscribe.PacketIdentifier)] = respChan
""","""	respChan := make(chan any)
	c.responseChan[int(subscribe.PacketIdentifier)] = respChan
""")],"a SUBACK that is received before Subscribe has begun to wait for it","the acknowledgement is dropped and Subscribe waits until its context ends",
'''
// slowCtx is slow to tell its channel.
type slowCtx struct{ context.Context }

func (c slowCtx) Done() <-chan struct{} {
	time.Sleep(500 * time.Millisecond)
	return c.Context.Done()
}

func TestDemo(t *testing.T) {
	l := newLink(t, nil)
	l.mustConnect(nil, nil)
	done := make(chan error, 1)
	go func() {
		ctx, cancel := context.WithTimeout(context.Background(), 3*time.Second)
		defer cancel()
		tp := Topic{}
		tp.Topic.SetFilter("a")
		done <- l.c.Subscribe(slowCtx{ctx}, []Topic{tp})
	}()
	p := l.next()
	if p == nil || p[0] != 0x82 {
		t.Fatalf("no SUBSCRIBE: %x", p)
	}
	if err := l.feed([]byte{0x90, 4, p[1], p[2], 0, 0}); err != nil {
		t.Fatal(err)
	}
	if err := <-done; err != nil {
		t.Fatal(err)
	}
}
''')

s("receive-quota-before-send","C19",[(C,"""	// Send the PUBACK control packet to the server
	if err = c.send(puback); err != nil {
		return err
	}

	// Increment the receive quota counter so that more publishes (QoS > 0) can be received
	c.mutex.Lock()
	c.receiveQuota++
	c.mutex.Unlock()
""","""	// Increment the receive quota counter so that more publishes (QoS > 0) can be received
	c.mutex.Lock()
	c.receiveQuota++
	c.mutex.Unlock()

	// Send the PUBACK control packet to the server
	if err = c.send(puback); err != nil {
		return err
	}
""")],"a PUBACK that cannot be sent in time, and a server that sends another publish without having got it","a publish above the receive maximum is accepted",
'''
// import "sync"
// import "os"
'''+RECORDER+'''
func TestDemo(t *testing.T) {
	var r *recConn
	l := newLink(t, func(c net.Conn) net.Conn { r = &recConn{Conn: c}; return r })
	l.mustConnect(&packets.Connect{ReceiveMaximum: 1}, nil)
	r.write = func(p []byte) (int, error, bool) {
		r.write = nil
		return 0, os.ErrDeadlineExceeded, true
	}
	if err := l.feed(pubBytes(2, "t", 1, "x")); err == nil {
		t.Fatal("no error")
	}
	err := l.feed(pubBytes(2, "t", 2, "x"))
	if err != ReasonCode(0x93) {
		t.Fatalf("the second publish without an acknowledgement of the first: %v", err)
	}
}
''')

s("direct-signal-blocks","C23",[(C,"""		// Signal this channel directly
		select {
		case channel <- e:
			// Signalled
		default:
			// TODO: Decide whether or not to let this goroutine block. If this goroutine is allowed to block, then it
			//       will be required that no event channel goes unconsumed. Otherwise, the tradeoff would be unconsumed
			//       event channels will stop receiving new events when they are full.
			// Already has a pending event. This channel will miss the current event
		}
""","""		// Signal this channel directly
		channel <- e
""")],"a topic-bound event channel that is full","Poll blocks until the application empties the channel, holding both the connection and the event lock",
'''
func TestDemo(t *testing.T) {
	l := newLink(t, nil)
	l.mustConnect(nil, nil)
	ch := l.c.CreateEventChannel(1)
	tp := Topic{}
	tp.Topic.SetFilter("a/#")
	tp.SetEventChannel(ch)
	done := make(chan error, 1)
	go func() { done <- l.c.Subscribe(context.Background(), []Topic{tp}) }()
	p := l.next()
	if err := l.feed([]byte{0x90, 4, p[1], p[2], 0, 0}); err != nil {
		t.Fatal(err)
	}
	if err := <-done; err != nil {
		t.Fatal(err)
	}
	fed := make(chan error, 1)
	go func() { fed <- l.feed(pubBytes(0, "a/b", 0, "1"), pubBytes(0, "a/b", 0, "2"), pubBytes(0, "a/b", 0, "3")) }()
	select {
	case err := <-fed:
		if err != nil {
			t.Fatal(err)
		}
	case <-time.After(5 * time.Second):
		t.Fatal("Poll blocks")
	}
}
''')

s("event-channel-size-from-quota","C12",[(C,"""	if n <= 0 {
		n = 1
	}

	// Create a channel""","""	if n <= 0 {
		// Make room for as many publishes as the server may send at once
		c.mutex.RLock()
		if n = int(c.clientReceiveMaximum); n == 0 {
			n = 1
		}
		c.mutex.RUnlock()
	}

	// Create a channel""")],"CreateEventChannel with a size of zero while Connect is about to signal the CONNACK","CreateEventChannel and Connect take the two locks in opposite orders and wait for each other forever",
'''
// import "sync"

func TestDemo(t *testing.T) {
	for i := 0; i < 20; i++ {
		l := newLink(t, nil)
		stop := make(chan struct{})
		var wg sync.WaitGroup
		for j := 0; j < 8; j++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					select {
					case <-stop:
						return
					default:
						l.c.CloseEventChannel(l.c.CreateEventChannel(0))
					}
				}
			}()
		}
		time.Sleep(time.Millisecond)
		done := make(chan error, 1)
		go func() { done <- l.connect(&packets.Connect{ReceiveMaximum: 2}, nil) }()
		select {
		case err := <-done:
			if err != nil {
				t.Fatal(err)
			}
		case <-time.After(10 * time.Second):
			t.Fatal("Connect and CreateEventChannel wait for each other")
		}
		close(stop)
		wg.Wait()
	}
}
''')

s("publish-signalled-later","C33",[(C,"""		c.signal(packets.PUBLISH, publish, nil)
""","""		// Let the next control packet be received while the event channels are signalled
		go c.signal(packets.PUBLISH, publish, nil)
""")],"several publishes that have arrived already, and a scheduler that runs the goroutines in another order","the events of publishes come in another order than the publishes",
'''
// import "runtime"
// import "fmt"

type bufConn struct {
	net.Conn
	r *bytes.Buffer
}

func (c *bufConn) Read(p []byte) (int, error)      { return c.r.Read(p) }
func (c *bufConn) Write(p []byte) (int, error)     { return len(p), nil }
func (c *bufConn) Close() error                    { return nil }
func (c *bufConn) SetDeadline(time.Time) error     { return nil }

func TestDemo(t *testing.T) {
	defer runtime.GOMAXPROCS(runtime.GOMAXPROCS(1))
	const n = 50
	for round := 0; round < 20; round++ {
		b := &bytes.Buffer{}
		b.Write([]byte{0x20, 3, 0, 0, 0})
		for i := 0; i < n; i++ {
			b.Write(pubBytes(0, "t", 0, fmt.Sprintf("%03d", i)))
		}
		c := NewClient(&bufConn{r: b})
		ch := c.CreateEventChannel(200)
		if err := c.Connect(context.Background(), &packets.Connect{}); err != nil {
			t.Fatal(err)
		}
		<-ch.C
		for i := 0; i < n; i++ {
			if err := c.Poll(context.Background()); err != nil {
				t.Fatal(err)
			}
		}
		for i := 0; i < n; i++ {
			select {
			case e := <-ch.C:
				if got := string(e.Data.(*packets.Publish).Payload); got != fmt.Sprintf("%03d", i) {
					t.Fatalf("publish %d: %s", i, got)
				}
			case <-time.After(time.Second):
				t.Fatalf("publish %d is missing", i)
			}
		}
	}
}
''')

s("publish-checks-before-lock","C15",[(C,"""	c.connMutex.Lock()
	defer c.connMutex.Unlock()

	if !c.IsConnected() {
		return ErrClientNotConnected
	}

	// Set I/O deadline
	if err = c.conn.SetDeadline(deadline); err != nil {
		return err
	}

	// Perform preflight""","""	// Do not wait for the connection when there is none
	if !c.IsConnected() {
		return ErrClientNotConnected
	}

	c.connMutex.Lock()
	defer c.connMutex.Unlock()

	// Set I/O deadline
	if err = c.conn.SetDeadline(deadline); err != nil {
		return err
	}

	// Perform preflight""")],"a Publish that waits for the connection while Poll receives a DISCONNECT","the PUBLISH is sent after the connection has ended",
'''
// import "sync"
'''+RECORDER+'''
func (c *recConn) SetDeadline(d time.Time) error { c.Conn.SetDeadline(d); return nil }

func TestDemo(t *testing.T) {
	var r *recConn
	l := newLink(t, func(c net.Conn) net.Conn { r = &recConn{Conn: c}; return r })
	l.mustConnect(nil, nil)
	polled := make(chan error, 1)
	go func() { polled <- l.c.Poll(context.Background()) }()
	time.Sleep(200 * time.Millisecond)
	published := make(chan error, 1)
	go func() { published <- l.c.Publish(context.Background(), &packets.Publish{Topic: "t"}) }()
	time.Sleep(200 * time.Millisecond)
	l.conn.Write([]byte{0xe0, 2, 0, 0})
	if err := <-polled; err != nil {
		t.Fatal(err)
	}
	if err := <-published; err != ErrClientNotConnected {
		t.Error(err)
	}
	if r.late > 0 {
		t.Fatal("written to the connection after it was closed")
	}
}
''')

s("store-error-keeps-lock","C11",[(C,"""			if err = c.storage.Store(uint16(pub.PacketIdentifier), pub); err != nil {
				c.mutex.Unlock()
				return err
			}
""","""			err = c.storage.Store(uint16(pub.PacketIdentifier), pub)
			if errors.Is(err, storage.ErrDuplicateEntry) {
				c.mutex.Unlock()
				return err
			} else if err != nil {
				return err
			}
""")],"a storage that fails with another error than that of a duplicate","Publish returns with a lock held, and every later call blocks forever",
'''
// import "errors"

type badStorage struct{}

func (badStorage) Store(uint16, any) error { return errors.New("full") }
func (badStorage) Get(uint16) (any, error) { return nil, errors.New("full") }
func (badStorage) Drop(uint16) error       { return errors.New("full") }

func TestDemo(t *testing.T) {
	l := newLink(t, nil)
	l.mustConnect(nil, nil)
	l.c.SetStorage(badStorage{})
	done := make(chan bool)
	go func() {
		if err := l.c.Publish(context.Background(), &packets.Publish{Topic: "t", QoS: 1}); err == nil {
			t.Error("no error")
		}
		l.c.IsConnected()
		close(done)
	}()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("a lock is held")
	}
}
''')

s("filter-skips-in-place","C39",[(C,"""				// Invalid use of # wildcard. Do attempt to match the filter any further
				return false
			}

			// Stop""","""				// Invalid use of # wildcard. It only matches itself
				if topicPos < len(topic) && topic[topicPos] != '#' {
					return false
				}
				continue
			}

			// Stop""")],"a subscription whose filter has a misplaced # at a place where the topic has ended","the matcher does not advance, so Poll loops forever with the locks held",
'''
func TestDemo(t *testing.T) {
	done := make(chan bool, 1)
	go func() { done <- (&Client{}).matchTopic("ab", "ab#") }()
	select {
	case m := <-done:
		if m {
			t.Fatal("matched")
		}
	case <-time.After(5 * time.Second):
		t.Fatal("the matcher does not end")
	}
}
''')

s("eof-keeps-connected","C16",[(C,"""	} else if err != nil {
		// Some other error occurred. The connection is no longer usable.
		c.closeConn()
		return err
	}
""","""	} else if err != nil && !errors.Is(err, io.EOF) {
		// Some other error occurred. The connection is no longer usable.
		c.closeConn()
		return err
	} else if err != nil {
		// The server has closed the connection already
		return err
	}
""")],"a server that closes the connection without a DISCONNECT","the client stays in the connected state and pending calls wait for acknowledgements that cannot come",
'''
func TestDemo(t *testing.T) {
	l := newLink(t, nil)
	l.mustConnect(nil, nil)
	polled := make(chan error, 1)
	go func() { polled <- l.c.Poll(context.Background()) }()
	time.Sleep(200 * time.Millisecond)
	l.conn.Close()
	if err := <-polled; err == nil {
		t.Fatal("no error")
	}
	if l.c.IsConnected() {
		t.Fatal("still connected")
	}
}
''')

s("server-keep-alive-lower-only","C24",[(C,"	if connack.ServerKeepAlive > 0 {","	if connack.ServerKeepAlive > 0 && (packet.KeepAlive == 0 || connack.ServerKeepAlive < packet.KeepAlive) {")],"a server that asks for a longer keep-alive interval than the client did","the client keeps its own interval instead of the server's",
'''
func TestDemo(t *testing.T) {
	for _, k := range []byte{5, 20} {
		l := newLink(t, nil)
		l.mustConnect(&packets.Connect{KeepAlive: 10}, []byte{0x20, 6, 0, 0, 3, 0x13, 0, k})
		if d := l.c.KeepAliveInterval(); d != time.Duration(k)*time.Second {
			t.Fatalf("server keep alive %d: %v", k, d)
		}
	}
}
''')

s("pubrec-error-not-dropped","C20",[(C,"""		if c.storage != nil {
			// Discard original publish from persistent storage
			if err = c.drop(""","""		if c.storage != nil && pubrec.ReasonCode == 0 {
			// Discard original publish from persistent storage
			if err = c.drop("""),],"a PUBREC with a failure reason code, and a storage","the PUBLISH stays in storage although the server refused it, and its identifier can never be stored again",
'''
// import "github.com/waj334/tinygo-mqtt/mqtt/storage/memory"

func TestDemo(t *testing.T) {
	l := newLink(t, nil)
	l.mustConnect(nil, nil)
	st := memory.NewStorage()
	l.c.SetStorage(st)
	if err := l.c.Publish(context.Background(), &packets.Publish{Topic: "t", QoS: 2, PacketIdentifier: 5}); err != nil {
		t.Fatal(err)
	}
	if p := l.next(); p == nil {
		t.Fatal("no PUBLISH")
	}
	if err := l.feed([]byte{0x50, 3, 0, 5, 0x97}); err != nil {
		t.Fatal(err)
	}
	if _, err := st.Get(5); err == nil {
		t.Fatal("still stored")
	}
}
''')

demo_match = '''
func TestDemo(t *testing.T) {
	l := newLink(t, nil)
	l.mustConnect(nil, nil)
	filters := []string{"a/#", "+/c", "a/+/c", "a/+", "+/+", "+/#"}
	chans := map[string]EventChannel{}
	var topics []Topic
	for _, f := range filters {
		chans[f] = l.c.CreateEventChannel(100)
		tp := Topic{}
		tp.Topic.SetFilter(f)
		tp.SetEventChannel(chans[f])
		topics = append(topics, tp)
	}
	go func() {
		p := l.next()
		l.conn.Write([]byte{0x90, 9, p[1], p[2], 0, 0, 0, 0, 0, 0, 0})
	}()
	done := make(chan error, 1)
	go func() {
		done <- l.c.Subscribe(context.Background(), topics)
	}()
	for i := 0; i < 20; i++ {
		ctx, cancel := context.WithTimeout(context.Background(), 50*time.Millisecond)
		l.c.Poll(ctx)
		cancel()
		select {
		case err := <-done:
			if err != nil {
				t.Fatal(err)
			}
			i = 20
		default:
		}
	}
	for topic, want := range map[string]string{
		"a": "a/# +/#", "a/": "a/# a/+ +/+ +/#", "/c": "+/c +/+ +/#", "a//c": "a/# a/+/c +/#", "a/b/c": "a/# a/+/c +/#", "b/c": "+/c +/+ +/#", "a/b": "a/# a/+ +/+ +/#",
	} {
		l.feed(append([]byte{0x30, byte(3 + len(topic)), 0, byte(len(topic))}, topic+"\\x00"...))
		time.Sleep(20 * time.Millisecond)
		got := ""
		for _, f := range filters {
			for len(chans[f].C) > 0 {
				if e := <-chans[f].C; e.PacketType == packets.PUBLISH {
					got += " " + f
				}
			}
		}
		if got != " "+want {
			t.Errorf("topic %q: got it for%s, want %s", topic, got, want)
		}
	}
}
'''

s("hash-needs-more-topic","C29",[(C,"|| filterPos != len(filter)-1 {","|| filterPos != len(filter)-1 || topicPos >= len(topic) {")],"a filter that ends with '/#' and a topic that ends with the '/' before it, which makes the level that '#' stands for empty","such a publish is not delivered to the channel that is bound to the filter",demo_match)

s("plus-skips-empty-level-to-end","C29",[(C,"""			for topicPos < len(topic) && topic[topicPos] != '/' {
				topicPos++
			}
""","""			if n := strings.IndexByte(topic[topicPos:], '/'); n > 0 {
				topicPos += n
			} else {
				topicPos = len(topic)
			}
"""),(C,"	\"sync\"\n","	\"strings\"\n	\"sync\"\n")],"a '+' that stands for an empty level with more levels after it","'+' takes the rest of the topic if its level is empty: 'a/+' matches 'a//c', and 'a/+/c' does not",demo_match)

s("duplicate-flag-not-delivered","C41",[(C,"""		c.signal(packets.PUBLISH, publish, nil)
""","""		// A publish that the server sent before was signalled then
		if !publish.Duplicate {
			c.signal(packets.PUBLISH, publish, nil)
		}
""")],"a publish that the server sends again because the first one never arrived","the publish is acknowledged and is on no event channel",
'''
func TestDemo(t *testing.T) {
	l := newLink(t, nil)
	l.mustConnect(nil, nil)
	ch := l.c.CreateEventChannel(2000)
	p := pubBytes(8|2, "t", 7, "x")
	if err := l.feed(p); err != nil {
		t.Fatal(err)
	}
	if a := l.next(); a == nil || a[0] != 0x40 {
		t.Fatalf("no PUBACK: %x", a)
	}
	n := 0
	for len(ch.C) > 0 {
		if e := <-ch.C; e.PacketType == packets.PUBLISH {
			n++
		}
	}
	if n != 1 {
		t.Fatalf("the publish is on the event channel %d times", n)
	}
}
''')

s("disconnect-short-not-decoded","C42",[(C,"""		disconnect := &packets.Disconnect{Header: header}
""","""		disconnect := &packets.Disconnect{}
		if header.Remaining > 1 { // There are a reason code and a property length
			disconnect.Header = header
		}
""")],"a DISCONNECT that ends with its reason code","the event says that the server disconnected normally",
'''
func TestDemo(t *testing.T) {
	l := newLink(t, nil)
	l.mustConnect(nil, nil)
	ch := l.c.CreateEventChannel(2000)
	if err := l.feed([]byte{0xe0, 1, 0x8b}); err != nil {
		t.Fatal(err)
	}
	for len(ch.C) > 0 {
		if e := <-ch.C; e.PacketType == packets.DISCONNECT {
			if d := e.Data.(*packets.Disconnect); d.ReasonCode != 0x8b {
				t.Fatalf("the reason code of the event is %x", d.ReasonCode)
			}
			return
		}
	}
	t.Fatal("no event")
}
''')

s("will-drops-session-expiry","C43",[(C,"""	if c.sessionExpiryInterval != 0 {
		disconnect.SessionExpiryInterval = ""","""	if c.sessionExpiryInterval != 0 && !publishWill {
		disconnect.SessionExpiryInterval = """)],"a disconnect that asks for the will to be published and for another session expiry interval","the session expiry interval that was asked for is not sent",
'''
func TestDemo(t *testing.T) {
	l := newLink(t, nil)
	l.mustConnect(&packets.Connect{SessionExpiryInterval: 100}, nil)
	done := make(chan error, 1)
	go func() { done <- l.c.DisconnectWithSessionExpiry(context.Background(), true, 500) }()
	p := l.next()
	if want := []byte{0xe0, 4, 5, 0x11, 0, 0, 1, 0xf4}; !bytes.Equal(p, want) {
		t.Fatalf("got %x, want %x", p, want)
	}
	<-done
}
''')

s("duplicate-filters-sent-once","C43",[(C,"""	for index := range topics {
		_topics = append(_topics, topics[index].Topic)
	}
""","""	for index := range topics {
		// The server has a filter already that is the same as the one before
		if index == 0 || topics[index-1].Topic.Filter() != topics[index].Topic.Filter() {
			_topics = append(_topics, topics[index].Topic)
		}
	}
""")],"two subscriptions of the same filter with other options, next to each other","the second one is not in the SUBSCRIBE, and the subscription has the options of the first",
'''
func TestDemo(t *testing.T) {
	l := newLink(t, nil)
	l.mustConnect(nil, nil)
	var topics []Topic
	for q := 0; q < 2; q++ {
		tp := Topic{}
		tp.Topic.SetFilter("a").SetQoS(packets.QoS(q))
		topics = append(topics, tp)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 500*time.Millisecond)
	defer cancel()
	go l.c.Subscribe(ctx, topics)
	p := l.next()
	if n := bytes.Count(p, []byte{0, 1, 'a'}); n != 2 {
		t.Fatalf("%d filters were sent: %x", n, p)
	}
}
''')

s("event-channel-size-capped","C44",[(C,"""	if n <= 0 {
		n = 1
	}

	// Create a""","""	if n <= 0 || n > 1024 {
		// Not a reasonable size
		n = 1
	}

	// Create a""")],"an event channel with room for more than 1024 events, whose reader falls behind","events that there was room for are lost",
'''
func TestDemo(t *testing.T) {
	l := newLink(t, nil)
	ch := l.c.CreateEventChannel(2000)
	l.mustConnect(nil, nil)
	for len(ch.C) > 0 {
		<-ch.C
	}
	for i := 0; i < 20; i++ {
		l.c.signal(packets.PUBLISH, nil, nil)
	}
	if len(ch.C) != 20 {
		t.Fatalf("%d of 20 events were kept", len(ch.C))
	}
}
''')

s("event-channel-identity-reused","C44",[(C,"""	c.evChanIdCounter++

	return result""","""	c.evChanIdCounter = len(c.eventChans) + 1

	return result""")],"two event channels are created, the first is closed, and two more are created","the last two share an identity, so only one of them gets events and closing one closes the other",
'''
func TestDemo(t *testing.T) {
	l := newLink(t, nil)
	a := l.c.CreateEventChannel(2)
	l.c.CreateEventChannel(2)
	l.c.CloseEventChannel(a)
	x, y := l.c.CreateEventChannel(2), l.c.CreateEventChannel(2)
	l.c.signal(packets.PUBLISH, nil, nil)
	if len(x.C) != 1 || len(y.C) != 1 {
		t.Fatalf("%d and %d events", len(x.C), len(y.C))
	}
}
''')

s("pubrec-frees-identifier","C21",[(C,"""			// Store the incoming PUBREC to persistent storage
			if !rejected {
""","""			// The PUBREC is what occupies the packet identifier in storage from here on
			if !rejected {
				delete(c.inflight, pubrec.PacketIdentifier.Value())
""")],"a storage, and a QoS 2 publish that is started between the PUBREC and the PUBCOMP of another, with an unlucky random number","the identifier of a QoS 2 publish whose exchange is not over is given to another publish",
'''
// import "github.com/waj334/tinygo-mqtt/mqtt/storage/memory"

func TestDemo(t *testing.T) {
	l := newLink(t, nil)
	l.mustConnect(nil, nil)
	l.c.SetStorage(memory.NewStorage())
	l.c.SetRngFn(func() uint32 { return 5 })
	a, b := &packets.Publish{Topic: "a", QoS: 2}, &packets.Publish{Topic: "b", QoS: 1}
	if err := l.c.Publish(context.Background(), a); err != nil {
		t.Fatal(err)
	}
	if p := l.next(); p == nil || a.PacketIdentifier != 5 {
		t.Fatal("no PUBLISH")
	}
	if err := l.feed([]byte{0x50, 2, 0, 5}); err != nil {
		t.Fatal(err)
	}
	if p := l.next(); p == nil || p[0]>>4 != 6 {
		t.Fatal("no PUBREL")
	}
	l.c.SetStorage(memory.NewStorage())
	if err := l.c.Publish(context.Background(), b); err == nil && b.PacketIdentifier == 5 {
		t.Fatal("the identifier is in use")
	}
}
''')

s("dup-flag-not-delivered","C28",[(C,"""		if duplicate {
			return err
		}

		// Route the PUBLISH to the correct event channels as configured by the Subscribe API
		c.eventMutex.Lock()
""","""		if duplicate || publish.QoS == packets.QoS2 && header.GetFlags()&0x08 != 0 {
			// It was delivered when it arrived for the first time
			return err
		}

		c.eventMutex.Lock()
""")],"a QoS 2 publish that the server sends again because the client never got the first one","a message that is new to the client is acknowledged but not delivered",
'''
func TestDemo(t *testing.T) {
	l := newLink(t, nil)
	ch := l.c.CreateEventChannel(10)
	l.mustConnect(nil, nil)
	for len(ch.C) > 0 {
		<-ch.C
	}
	if err := l.feed(pubBytes(0x0c, "t", 7, "x")); err != nil {
		t.Fatal(err)
	}
	if p := l.next(); p == nil || p[0]>>4 != 5 {
		t.Fatal("no PUBREC")
	}
	n := 0
	for len(ch.C) > 0 {
		if e := <-ch.C; e.PacketType == packets.PUBLISH {
			n++
		}
	}
	if n != 1 {
		t.Fatalf("delivered %d times", n)
	}
}
''')

s("subscribe-waits-first","C35",[(C,"""	unlockConn.Do(c.connMutex.Unlock)

	// Wait for the acknowledgement
	resp, err := c.waitResponse(ctx, respChan)
	if err != nil {
		return err
	}

	suback, ok""","""	unlockConn.Do(c.connMutex.Unlock)

	// Servers answer at once as a rule
	var resp any
	select {
	case resp = <-respChan:
		err, _ = resp.(error)
	case <-time.After(3 * time.Second):
		resp, err = c.waitResponse(ctx, respChan)
	}
	if err != nil {
		return err
	}

	suback, ok""")],"a context that ends while Subscribe waits for a server that does not answer","the call goes on waiting after its context has ended",
'''
func TestDemo(t *testing.T) {
	l := newLink(t, nil)
	l.mustConnect(nil, nil)
	tp := Topic{}
	tp.Topic.SetFilter("a")
	ctx, cancel := context.WithTimeout(context.Background(), 200*time.Millisecond)
	defer cancel()
	at := time.Now()
	if err := l.c.Subscribe(ctx, []Topic{tp}); err == nil {
		t.Fatal("no error")
	}
	if time.Since(at) > 2*time.Second {
		t.Fatal("it waited on")
	}
}
''')

s("quota-wake-once","C32",[(C,"""		c.mutex.Lock()
		if !c.isConnected {
			// The same goes for all pending calls to Publish
			c.unblockPublish()
			c.mutex.Unlock()
			return ErrClientNotConnected
		}

		if c.sendQuota > 0 {
			c.sendQuota--
			if c.sendQuota > 0 {
				// There is enough left for another pending call to Publish
				c.unblockPublish()
			}
			c.mutex.Unlock()
			return nil
		}
		c.mutex.Unlock()

		select {
		case <-c.pendingSendSemaphore: // Unblocked. Try again
		case <-ctx.Done():
			return ctx.Err()
		}
	}
}
""","""		acquired, err := func() (bool, error) {
			c.mutex.Lock()
			defer c.mutex.Unlock()

			if !c.isConnected {
				// The same goes for all pending calls to Publish
				c.unblockPublish()
				return false, ErrClientNotConnected
			}

			if c.sendQuota == 0 {
				return false, nil
			}
			c.sendQuota--
			return true, nil
		}()
		if acquired || err != nil {
			return err
		}

		select {
		case <-c.pendingSendSemaphore: // Unblocked. Try again
		case <-ctx.Done():
			return ctx.Err()
		}
	}
}
""")],"two calls to Publish wait for quota, and two acknowledgements arrive before the first of them runs","one of the calls stays blocked although there is quota",
'''
// import "github.com/waj334/tinygo-mqtt/mqtt/packets/primitives"

func TestDemo(t *testing.T) {
	l := newLink(t, nil)
	l.mustConnect(nil, []byte{0x20, 6, 0, 0, 3, 0x21, 0, 2})
	for i := 0; i < 2; i++ {
		if err := l.c.Publish(context.Background(), &packets.Publish{Topic: "t", QoS: 1, PacketIdentifier: 1 + packets0(i)}); err != nil {
			t.Fatal(err)
		}
		l.next()
	}
	// a context that holds calls back that are about to wait
	gate := &gateContext{Context: context.Background(), at: make(chan bool, 20), open: make(chan bool)}
	done := make(chan error, 2)
	for i := 0; i < 2; i++ {
		i := i
		go func() {
			done <- l.c.Publish(gate, &packets.Publish{Topic: "t", QoS: 1, PacketIdentifier: 10 + packets0(i)})
		}()
	}
	<-gate.at
	<-gate.at
	// both are given back before a waiting call runs
	l.c.mutex.Lock()
	l.c.releaseSendQuota()
	l.c.releaseSendQuota()
	l.c.mutex.Unlock()
	close(gate.open)
	for i := 0; i < 2; i++ {
		select {
		case err := <-done:
			if err != nil {
				t.Fatal(err)
			}
		case <-time.After(3 * time.Second):
			t.Fatal("a call is still blocked")
		}
	}
}

func packets0(i int) primitives.PrimitiveUint16 { return primitives.PrimitiveUint16(i) }

type gateContext struct {
	context.Context
	at, open chan bool
}

func (g *gateContext) Done() <-chan struct{} {
	g.at <- true
	<-g.open
	return nil
}
''')
