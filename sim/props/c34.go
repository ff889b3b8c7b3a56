package props

import (
	"bytes"
	"crypto/ed25519"
	crand "crypto/rand"
	"crypto/sha512"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"hash"
	"io"
	"math/big"
	mrand "math/rand"
	"net"
	"net/url"
	"strings"
	"time"

	"github.com/Shopify/sarama"
	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	"github.com/xdg/scram"
	"verif/sim/core"
)

func init() {
	core.Register(&core.Prop{ID: "C34", Title: "Kafka clients log in, encrypt and set options as their URL says, on every connection", Gen: genC34, Run: runC34, MaxSim: 3 * time.Hour,
		Rule: "one run = real Kafka producers and consumers, with credentials, TLS and options in their URLs, work with simulated brokers that demand them of every connection, through faults that make them connect again, while other clients have wrong credentials or reach brokers that do not know the password; non-trivial = a client was turned away or a fault hit; a state = (logins, log ends)",
		Real: append([]string{"xdg/scram client", "crypto/tls client"}, kafkaReal...), Stub: append([]string{"SCRAM and TLS server sides: xdg/scram, crypto/tls", "crypto/rand: seeded"}, kafkaStub...),
		Floors: map[string]int64{"parts": 1, "schema": 0, "brokers": 1, "consumers": 1, "producers": 1}})
	core.Resets = append(core.Resets, func() { crand.Reader = mrand.New(mrand.NewSource(34)) })
	sarama.SimWarm()
	// An authority that everyone trusts; the program forces the use of fallback roots.
	seed := bytes.Repeat([]byte{34}, ed25519.SeedSize)
	key := ed25519.NewKeyFromSeed(seed)
	t := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "brokers"}, NotBefore: time.Date(1990, 1, 1, 0, 0, 0, 0, time.UTC), NotAfter: time.Date(2200, 1, 1, 0, 0, 0, 0, time.UTC),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth}}
	for b := 1; b <= 3; b++ {
		for _, k := range []string{"p", "c", "x"} {
			for i := 0; i < 8; i++ {
				t.DNSNames = append(t.DNSNames, fmt.Sprintf("k%d.%s%d", b, k, i))
			}
		}
	}
	der, err := x509.CreateCertificate(mrand.New(mrand.NewSource(1)), t, t, key.Public(), key)
	if err != nil {
		panic(err)
	}
	crt, _ := x509.ParseCertificate(der)
	pool := x509.NewCertPool()
	pool.AddCert(crt)
	x509.SetFallbackRoots(pool)
	brokerTLS = &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{der}, PrivateKey: key}}, MinVersion: tls.VersionTLS13}
	// What happens once in a process must not happen in the midst of a run.
	a, b := net.Pipe()
	go func() {
		srv := tls.Server(b, brokerTLS)
		io.Copy(srv, srv)
	}()
	cl := tls.Client(a, &tls.Config{ServerName: "k1.p0"})
	if _, err := cl.Write([]byte("warm")); err != nil {
		panic("HARNESS: " + err.Error())
	}
	if _, err := io.ReadFull(cl, make([]byte, 4)); err != nil {
		panic("HARNESS: " + err.Error())
	}
	a.Close()
}

var brokerTLS *tls.Config

// URLs that cannot be read, for given brokers.
var kUnreadable = []string{"kafka://u:pa%%ss@%s", "kafka://%%zz:word@%s", "kafka://u:100%%@%s", "kafka://u:p w@%s", "kafka://%s, k9:9092", "kafka://%s,k9:port", "kafka://[%s", "kafka://u:p\x01w@%s"}

// kauth is what brokers know of the one user they serve.
type kauth struct {
	mech, user, pass string
	hash             scram.HashGeneratorFcn
	creds            scram.StoredCredentials
	logins, refused  int
	leaked           string
}

var scramHash = map[string]scram.HashGeneratorFcn{"SCRAM-SHA-256": scram.SHA256, "SCRAM-SHA-512": func() hash.Hash { return sha512.New() }}
var scramCreds = map[string]scram.StoredCredentials{}

func newKauth(mech, user, pass string) *kauth {
	a := &kauth{mech: mech, user: user, pass: pass, hash: scramHash[mech]}
	if a.hash != nil {
		k := mech + "/" + user + "/" + pass
		if _, ok := scramCreds[k]; !ok {
			c, err := a.hash.NewClient(user, pass, "")
			if err != nil {
				panic("HARNESS: " + err.Error())
			}
			scramCreds[k] = c.GetStoredCredentials(scram.KeyFactors{Salt: "0123456789abcdef", Iters: 4096})
		}
		a.creds = scramCreds[k]
	}
	return a
}

// login is how far a connection has got with proving who it is.
type login struct {
	done, shaken bool
	conv         *scram.ServerConversation
	nonce        string
	steps        int
}

// login handles a request on a connection on which nobody has logged in yet.
// No response: the broker hangs up.
func (c *cluster) login(p *kproc, rw net.Conn, l *login, req *sarama.SimRequest) ([]byte, error) {
	a := c.auth
	refuse := func() {
		a.refused++
		c.w.Probe("turned-away")
		if p.name[0] != 'x' {
			c.w.Fail("login-failed", "%s, whose URL is right, failed to log in on a connection (request %s, mechanism %q)", p.name, req.Kind, req.Mech)
		}
	}
	switch {
	case req.Kind == "handshake" && !l.shaken:
		if e, ok := c.takeErr("auth"); ok {
			return sarama.SimHandshaken(req, e, []string{a.mech})
		}
		if req.Mech != a.mech {
			refuse()
			return sarama.SimHandshaken(req, sarama.ErrUnsupportedSASLMechanism, []string{a.mech})
		}
		l.shaken = true
		res, err := sarama.SimHandshaken(req, sarama.ErrNoError, []string{a.mech})
		if err != nil || a.mech != "PLAIN" || req.Version != 0 {
			return res, err
		}
		// What follows is not wrapped in requests.
		if _, err := rw.Write(res); err != nil {
			return nil, nil
		}
		var h [4]byte
		if _, err := io.ReadFull(rw, h[:]); err != nil {
			return nil, nil
		}
		n := binary.BigEndian.Uint32(h[:])
		if n > 10000 {
			return nil, nil
		}
		b := make([]byte, n)
		if _, err := io.ReadFull(rw, b); err != nil {
			return nil, nil
		}
		if string(b) != "\x00"+a.user+"\x00"+a.pass {
			refuse()
			return nil, nil
		}
		l.done = true
		a.logins++
		return make([]byte, 4), nil
	case req.Kind == "auth" && l.shaken && a.hash != nil:
		if strings.Contains(string(req.Auth), a.pass) || strings.Contains(string(req.Auth), base64.StdEncoding.EncodeToString([]byte(a.pass))) {
			c.w.Fail("password-sent", "%s sent its password to a broker, although it uses %s", p.name, a.mech)
			return nil, nil
		}
		if l.conv == nil {
			s, err := a.hash.NewServer(func(u string) (scram.StoredCredentials, error) {
				// The library leaves what names escape as it is.
				if strings.NewReplacer("=2C", ",", "=3D", "=").Replace(u) != a.user {
					return scram.StoredCredentials{}, fmt.Errorf("unknown user")
				}
				return a.creds, nil
			})
			if err != nil {
				return nil, err
			}
			l.conv = s.NewConversation()
		}
		l.steps++
		if p.impostor > 0 {
			return c.pretend(p, l, req)
		}
		out, err := l.conv.Step(string(req.Auth))
		if err != nil {
			refuse()
			return sarama.SimAuthenticated(req, sarama.ErrSASLAuthenticationFailed, nil)
		}
		if l.conv.Valid() {
			l.done = true
			a.logins++
		}
		return sarama.SimAuthenticated(req, sarama.ErrNoError, []byte(out))
	}
	if p.impostor > 0 && req.Kind != "handshake" && req.Kind != "auth" {
		c.w.Fail("impostor-believed", "%s sent a %s request to a broker that has not proved that it knows the password", p.name, req.Kind)
		return nil, nil
	}
	// Anything else is not for strangers.
	refuse()
	return nil, nil
}

// pretend is a broker that does not know the password, and lets everyone in.
func (c *cluster) pretend(p *kproc, l *login, req *sarama.SimRequest) ([]byte, error) {
	c.w.Fault("impostor")
	out := ""
	if l.steps == 1 {
		msg := string(req.Auth)
		if i := strings.Index(msg, "r="); i >= 0 {
			l.nonce = strings.SplitN(msg[i+2:], ",", 2)[0]
		}
		nonce, iters := l.nonce+"xyz", 4096
		switch p.impostor {
		case 2:
			nonce = "somebodyelses"
		case 3:
			iters = 1
		case 4:
			nonce = ""
		}
		out = fmt.Sprintf("r=%s,s=%s,i=%d", nonce, base64.StdEncoding.EncodeToString([]byte("0123456789abcdef")), iters)
	} else {
		switch p.impostor {
		case 5:
			out = ""
		case 6:
			out = "e=other-error"
		default:
			out = "v=" + base64.StdEncoding.EncodeToString(make([]byte, 32))
		}
	}
	return sarama.SimAuthenticated(req, sarama.ErrNoError, []byte(out))
}

var kMechs = []string{"", "PLAIN", "SCRAM-SHA-256", "SCRAM-SHA-512"}
var kUsers = [][2]string{{"streams", "correct-horse"}, {"st.re-ams_1", "p@ss:w/ord?#%41"}, {"a b=c,d", "pass word+plus=,"}, {"", "only-a-password"}, {"us:er", "\u00e4\u00f6\u00fc-\u6f22"}}
var kCodecs = []string{"none", "gzip", "snappy", "lz4", "zstd", "", "other"}
var kOptions = []string{"", "&fetch.default=200", "&net.maxopenrequests=1", "&retry.backoff.ms=300", "&fetch.default=x&retry.backoff.ms=y&net.maxopenrequests=&message.send.max.retries=z&request.required.acks=q&idempotent=0", "&message.send.max.retries=200&request.required.acks=-1", "&net.maxopenrequests=1&fetch.default=100000"}

func genC34(r *core.Rand, p *core.Plan) {
	genKafka(r, p, r.Pick(1, 2, 3))
	p.P["mech"] = int64(r.N(len(kMechs)))
	p.P["user"] = int64(r.N(len(kUsers)))
	p.P["tls"] = int64(r.Pick(0, 0, 1))
	p.P["codec"] = int64(r.N(5))
	p.P["producers"] = int64(r.Pick(1, 1, 2))
	p.P["consumers"] = int64(r.Pick(1, 1, 2))
	p.P["gap"] = int64(r.Pick(0, 20, 300, 1500))
	span := int(p.P["gap"])*8 + 2000
	for i := int64(0); i < p.P["consumers"]; i++ {
		p.Add("start", i, int64(r.Pick(0, 100, r.N(span), span)), int64(r.N(len(kOptions))), int64(r.N(len(kCodecs))))
	}
	for i := int64(0); i < p.P["producers"]; i++ {
		p.Add("prod", i, int64(r.Pick(1, 5, r.N(3000)))+i, int64(r.N(len(kOptions))), int64(r.N(len(kCodecs))))
	}
	if p.P["mech"] > 0 {
		for i, n := 0, r.Pick(0, 1, 2, 3); i < n; i++ {
			// who, when, what is wrong, producer or consumer
			p.Add("wrong", int64(i), int64(r.N(span)), int64(r.N(11)), int64(r.N(2)))
		}
	}
	if r.P(1, 3) {
		// when, what is wrong, what is called
		p.Add("bad", int64(r.N(span)), int64(r.N(len(kUnreadable))), int64(r.N(5)))
	}
	if r.P(2, 3) {
		for i, n := 0, r.Pick(1, 2, 4, 8); i < n; i++ {
			k := r.Pick(0, 1, 4, 5, 6, 7, 7, 7, 8, 20)
			if p.P["brokers"] == 1 && k == 4 {
				k = 7
			}
			p.Add("f", int64(r.N(span)), int64(k), int64(r.N(1000)), int64(r.Pick(5, 100, 700, 2500)))
		}
	}
	core.GenSim(r, p, true)
	if p.Sim.StallMax > int64(200*time.Millisecond) {
		p.Sim.StallMax = int64(200 * time.Millisecond)
	}
}

func runC34(w *core.World) {
	p := w.Plan
	kw := newKWorld(w)
	if kw == nil {
		return
	}
	root := kw.t.byID[0]
	c := kw.c
	c.tokens, c.apart = 1, true
	c.codec = []sarama.CompressionCodec{sarama.CompressionNone, sarama.CompressionGZIP, sarama.CompressionSnappy, sarama.CompressionLZ4, sarama.CompressionZSTD}[p.P["codec"]]
	mech := kMechs[p.P["mech"]]
	user, pass := kUsers[p.P["user"]][0], kUsers[p.P["user"]][1]
	if user == "" && mech != "" {
		user = "u" // Kafka has no nameless users
	}
	if mech != "" {
		c.auth = newKauth(mech, user, pass)
	}
	if p.P["tls"] == 1 {
		c.tls = brokerTLS
	}
	// The URL of a process, with given credentials.
	link := func(name, mech, user, pass string, codec int64, opts string) (*kproc, string) {
		kp, u := c.proc(name, "")
		u = strings.TrimPrefix(u, "kafka://")
		u = strings.Replace(u, "compression.codec=none", "compression.codec="+kCodecs[codec], 1) + opts
		if mech != "" {
			u = url.UserPassword(user, pass).String() + "@" + u
			if mech != "PLAIN" {
				u += "&sasl.mechanism=" + mech
			}
		}
		if p.P["tls"] == 1 {
			u += "&tls=1"
		}
		return kp, "kafka://" + u
	}
	type prod struct {
		done chan struct{}
		err  error
		at   *node
	}
	var prods []*prod
	var cons []*kconsumer
	var wrong []chan string
	started := 0
	wait := make(chan error, 16)
	gap := int(p.P["gap"])
	for _, op := range p.Ops {
		op := op
		switch op.K {
		case "prod":
			pr := &prod{done: make(chan struct{})}
			prods = append(prods, pr)
			r := core.NewRand(p.Seed ^ uint64(op.Arg(0)+77))
			_, u := link(fmt.Sprintf("p%d", op.Arg(0)), mech, user, pass, op.Arg(3), kOptions[op.Arg(2)])
			go func() {
				defer close(pr.done)
				time.Sleep(time.Duration(op.Arg(1)) * time.Millisecond)
				var k transports.Producer
				for try := 0; ; try++ {
					var err error
					k, err = gotP(transports.ResolveProducer(u, mainTopic, kw.schema))
					if err == nil {
						break
					}
					w.Log("producer %d: %v", op.Arg(0), err)
					if try > 20 {
						pr.err = err
						return
					}
					time.Sleep(time.Second)
				}
				pause := func() {
					if gap > 0 {
						time.Sleep(time.Duration(r.N(gap+1)) * time.Millisecond)
					}
				}
				for _, n := range kw.order {
					pr.at = n
					pause()
					if err := sendBlock(k, kw.blks[n.id], pause); err != nil {
						pr.err = err
						return
					}
				}
			}()
		case "start":
			started++
			_, u := link(fmt.Sprintf("c%d", op.Arg(0)), mech, user, pass, op.Arg(3), kOptions[op.Arg(2)])
			go func() {
				time.Sleep(time.Duration(op.Arg(1)) * time.Millisecond)
				var err error
				for try := 0; try < 120; try++ {
					// The topics may not exist yet.
					var k *kconsumer
					if k, err = kw.consumer(u, root, nil, 0, ".*"); err == nil {
						if err = k.c.Start(); err == nil {
							cons = append(cons, k)
							break
						}
						close(k.stop)
					}
					time.Sleep(time.Second)
				}
				wait <- err
			}()
		case "wrong":
			if mech == "" {
				continue
			}
			name := fmt.Sprintf("x%d", op.Arg(0))
			wmech, wuser, wpass, imp := mech, user, pass, 0
			what := "a wrong password"
			switch k := op.Arg(2); {
			case k == 0:
				wpass += "x"
			case k == 1:
				wpass = strings.ToUpper(wpass)
				if wpass == pass {
					wpass += "y"
				}
			case k == 2:
				wuser, what = "somebody", "an unknown user name"
			case k == 3:
				wmech, what = "", "no credentials"
			case k == 4:
				wmech, what = kMechs[p.P["mech"]%3+1], "another mechanism"
			case mech == "PLAIN":
				wpass = pass[:len(pass)-1]
			default:
				imp, what = int(k)-4, "brokers that do not know the password"
			}
			kp, u := link(name, wmech, wuser, wpass, 0, "")
			kp.impostor = imp
			done := make(chan string, 1)
			wrong = append(wrong, done)
			go func() {
				time.Sleep(time.Duration(op.Arg(1)) * time.Millisecond)
				var err error
				kind := "producer"
				if op.Arg(3) == 0 {
					_, err = gotP(transports.ResolveProducer(u, mainTopic, kw.schema))
				} else {
					kind = "consumer"
					cfg := &delivery.ConsumerConfig{LastEmittedNum: root.num, LastHash: root.hash, LastWeight: new(big.Int).Set(root.weight), ReorgThreshold: 64, TrackedPrefixes: regexps([]string{".*"})}
					_, err = gotC(transports.ResolveConsumer(u, mainTopic, kw.topics, nil, 0, cfg))
				}
				if err == nil {
					done <- fmt.Sprintf("a %s with %s was created without an error", kind, what)
					return
				}
				done <- ""
			}()
		case "bad":
			_, u := link("x8", "", "", "", 0, "")
			h := strings.SplitN(strings.TrimPrefix(u, "kafka://"), "?", 2)
			u = fmt.Sprintf(kUnreadable[op.Arg(1)], h[0]) + "?" + h[1]
			if p.Seed%2 == 0 {
				u = "cardinal://" + u
			}
			done := make(chan string, 1)
			wrong = append(wrong, done)
			go func() {
				time.Sleep(time.Duration(op.Arg(0)) * time.Millisecond)
				var err error
				cfg := &delivery.ConsumerConfig{LastEmittedNum: root.num, LastHash: root.hash, LastWeight: new(big.Int).Set(root.weight), ReorgThreshold: 64, TrackedPrefixes: regexps([]string{".*"})}
				switch op.Arg(2) {
				case 0:
					_, err = gotP(transports.ResolveProducer(u, mainTopic, kw.schema))
				case 1:
					_, err = gotC(transports.ResolveConsumer(u, mainTopic, kw.topics, nil, 0, cfg))
				case 2:
					_, err = gotC(transports.ResolveMuxConsumer([]transports.BrokerParams{{URL: u, DefaultTopic: mainTopic, Topics: kw.topics}}, nil, cfg))
				case 3:
					_, err = transports.ResumptionForTimestamp([]transports.BrokerParams{{URL: u, DefaultTopic: mainTopic, Topics: kw.topics}}, 5)
				case 4:
					err = transports.CreateTopicIfDoesNotExist(u, mainTopic, 1, nil)
				}
				if err == nil {
					done <- fmt.Sprintf("call %d succeeded with the URL %q, which cannot be read", op.Arg(2), u)
					return
				}
				w.Probe("unreadable-url")
				done <- ""
			}()
		case "f":
			go func() {
				time.Sleep(time.Duration(op.Arg(0)) * time.Millisecond)
				if op.Arg(1) == 20 {
					if mech != "" && !c.ended && w.Now() >= c.quiet {
						// Logging in goes wrong once, on the broker's side.
						c.errs["auth"] = append(c.errs["auth"], sarama.ErrIllegalSASLState)
						for _, x := range c.net.Open("") {
							x.Reset()
						}
						c.quiet = w.Now() + 3*time.Second
					}
					return
				}
				c.chaos(op)
			}()
		}
	}
	if len(prods) == 0 {
		return
	}
	for i, pr := range prods {
		w.Step("producer %d publishing", i)
		<-pr.done
		if pr.err != nil {
			w.Fail("producer-error", "producer %d, whose URL is right, gave up at %v: %v", i, pr.at, pr.err)
			return
		}
	}
	for i := 0; i < started; i++ {
		w.Step("consumer starting")
		if err := <-wait; err != nil {
			w.Fail("consumer-error", "a consumer, whose URL is right, could not start: %v", err)
			return
		}
	}
	time.Sleep(5 * time.Second)
	c.calm()
	w.Calm()
	for _, done := range wrong {
		w.Step("a client with wrong credentials is being created")
		t := time.NewTimer(10 * time.Minute)
		select {
		case s := <-done:
			t.Stop()
			if s != "" {
				w.Fail("let-in", "%s", s)
				return
			}
			w.Probe("refused")
		case <-t.C:
			w.Fail("hangs", "a client with wrong credentials has been neither created nor refused for ten minutes")
			return
		}
	}
	kw.settle(60*time.Second, func() bool { return kw.lost() == 0 })
	for _, n := range kw.order {
		if kw.missing(n) > 0 {
			w.Fail("not-published", "%d of %d messages of %v never reached the log although every call succeeded", kw.missing(n), len(kw.all[n.hash]), n)
			return
		}
	}
	kw.settle(60*time.Second, func() bool {
		for _, k := range cons {
			if len(k.pbs) < len(kw.order) {
				return false
			}
		}
		return true
	})
	for i, k := range cons {
		kw.check(fmt.Sprintf("consumer %d", i), k, root, ".*")
		if w.Failed() {
			return
		}
	}
	if len(w.Faults) > 0 || len(wrong) > 0 {
		w.Probes["nontrivial"] = 1
	}
	h := []int64{}
	if c.auth != nil {
		h = append(h, int64(c.auth.logins))
	}
	for _, tn := range core.SortedKeys(c.topics) {
		for _, kp := range c.topics[tn].parts {
			h = append(h, kp.next)
		}
	}
	w.State(core.Mix(h...))
}
