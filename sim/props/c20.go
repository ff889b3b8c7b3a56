package props

import (
	"fmt"
	"math/big"
	"strings"
	"time"

	"github.com/Shopify/sarama"

	"github.com/openrelayxyz/cardinal-streams/v2/delivery"
	"github.com/openrelayxyz/cardinal-streams/v2/transports"
	types "github.com/openrelayxyz/cardinal-types"
	"verif/sim/core"
)

func init() {
	core.Register(&core.Prop{ID: "C20", Title: "A Kafka consumer starts where its token and configuration say", Gen: genC20, Run: runC20, MaxSim: 2 * time.Hour,
		Rule: "one run = blocks written to a simulated cluster over a period of time, a token made for some point of time while brokers are disturbed, more blocks, and a real Kafka consumer started from that token (or a part of it, or none), with or without a known last block and with any rollback; non-trivial = there were messages before and after the starting point; a state = (starting points, log ends, blocks received)",
		Real: append([]string{"transports.ResumptionForTimestamp"}, kafkaReal[1:]...), Stub: append([]string{"producers: messages from real delivery.Producers appended to the log by the harness"}, kafkaStub...), Floors: map[string]int64{"parts": 1, "schema": 0, "brokers": 1, "producers": 1}})
}

func genC20(r *core.Rand, p *core.Plan) {
	genKafka(r, p, r.Pick(1, 2, 4, 7, 12))
	p.P["precreate"] = 1
	p.P["producers"] = int64(r.Pick(1, 1, 2))
	p.P["maxwait"] = int64(r.Pick(50, 100, 500, 2000))
	p.P["empty"] = int64(r.Pick(0, 1)) // no known last block
	p.P["rollback"] = int64(r.Pick(0, 0, 0, 1, 3, 10, 50, 100000))
	p.P["token"] = int64(r.Pick(0, 0, 0, 0, 1, 2)) // 1: none at all, 2: for some of the partitions
	if r.P(1, 12) {
		p.P["token"] = 3 // a position of it is not there (any more)
	}
	p.P["mux"] = int64(r.Pick(0, 0, 1))
	if p.P["token"] == 1 && r.P(1, 2) || r.P(1, 8) {
		p.P["rollback"] = -1
	}
	p.P["faults"] = int64(r.Pick(0, 0, 1))
	total := 0
	for _, o := range p.Ops {
		if o.K == "c" {
			total += 2 + int(o.A[2]+o.A[3]+5*o.A[4])
		}
	}
	pub := func(n int) {
		for n > 0 {
			k := r.R(1, 1+n/3)
			p.Add("p", int64(r.N(int(p.P["producers"]))), int64(k))
			n -= k
			if r.P(1, 10) {
				p.Add("j", int64(r.N(16)), int64(r.N(12)), int64(r.U64()>>1))
			}
			if r.P(1, 2) {
				p.Add("s", int64(r.Pick(1, 2, 30, 200, 1000, 5000)))
			}
			if r.P(1, 12) {
				p.Add("trim", int64(r.N(12)), int64(r.Pick(1, 3, 10)))
			}
		}
	}
	pub(r.Pick(0, total/2, total, 2*total))
	// When the token is made, and for what moment.
	if p.P["faults"] == 1 {
		p.Add("f", 0, int64(r.Pick(0, 1, 3, 4, 5, 6, 7)), int64(r.N(1000)), int64(r.Pick(5, 100, 300)))
		p.Add("e", int64(r.N(6)), int64(r.R(1, 3)))
	}
	p.Add("token", int64(r.N(1001)), int64(r.Pick(0, 0, 0, 1)))
	pub(r.Pick(0, 0, total/4, total))
	p.Add("start")
	pub(r.Pick(0, total/3))
	core.GenSim(r, p, true)
	if p.Sim.StallMax > int64(200*time.Millisecond) {
		p.Sim.StallMax = int64(200 * time.Millisecond)
	}
}

func runC20(w *core.World) {
	p := w.Plan
	kw := newKWorld(w)
	if kw == nil {
		return
	}
	root := kw.t.byID[0]
	kw.c.onAppend = nil
	kw.c.tokens, kw.c.apart = 1, true
	tracked := regexps([]string{".*"})
	for _, pt := range kw.b.parts {
		kw.kpart(pt)
	}
	_, url := kw.c.proc("c", "")
	times := map[string]map[int64]int64{} // when each message was written, ms
	note := func() {
		for _, pt := range kw.b.parts {
			if times[pt.name] == nil {
				times[pt.name] = map[int64]int64{}
			}
			for _, b := range kw.kpart(pt).batches {
				for i, r := range b.Recs {
					times[pt.name][b.Offset+int64(i)] = r.Time.UnixNano() / 1e6
				}
			}
		}
	}
	began := time.Now().UnixNano() / 1e6
	var token []byte
	at := map[string]int64{} // where the token starts
	params := func() []transports.BrokerParams {
		if p.P["mux"] == 0 || len(kw.topics) < 2 {
			return []transports.BrokerParams{{URL: url, DefaultTopic: mainTopic, Topics: kw.topics, Rollback: p.P["rollback"]}}
		}
		return []transports.BrokerParams{{URL: "cardinal://" + url, DefaultTopic: mainTopic, Topics: kw.topics[:1], Rollback: p.P["rollback"]}, {URL: "null://"}, {URL: url, DefaultTopic: mainTopic, Topics: kw.topics[1:], Rollback: p.P["rollback"]}}
	}
	k := &kconsumer{stop: make(chan struct{})}
	start := map[string]int64{}
	got := map[types.Hash]int{}
	begun := false
	for _, op := range p.Ops {
		w.Step("%s %v", op.K, op.A)
		switch op.K {
		case "p":
			kw.kpublish(int(op.Arg(0)), int(op.Arg(1)))
		case "j":
			kw.junk(op.Arg(0), op.Arg(1), op.Arg(2))
		case "s":
			time.Sleep(time.Duration(op.Arg(0)) * time.Millisecond)
		case "f":
			kw.c.chaos(op)
		case "e":
			for i := int64(0); i < op.Arg(1); i++ {
				kw.c.errs["offsets"] = append(kw.c.errs["offsets"], sarErr(op.Arg(0)))
			}
		case "trim":
			if token != nil {
				break
			}
			pt := kw.b.parts[int(op.Arg(0))%len(kw.b.parts)]
			kp := kw.kpart(pt)
			kp.truncate(kp.first + op.Arg(1))
			for pt.first < kp.first {
				pt.log = pt.log[1:]
				pt.first++
			}
			w.Fault("retention")
		case "token":
			if token != nil {
				break
			}
			note()
			now := time.Now().UnixNano() / 1e6
			ts := began + (now-began)*op.Arg(0)/1000
			if op.Arg(1) == 1 {
				ts = now + op.Arg(0) + 1
			}
			if p.P["token"] == 1 {
				token = []byte{}
				break
			}
			var err error
			for try := 0; try < 30; try++ {
				bp := params()
				if p.Seed%3 == 0 {
					// A broker without topics has no positions.
					bp = append([]transports.BrokerParams{{URL: url}}, bp...)
				}
				token, err = transports.ResumptionForTimestamp(bp, ts)
				if err == nil {
					break
				}
				w.Probe("token-error")
				if p.P["faults"] == 0 {
					w.Fail("token-error", "no token could be made on a healthy cluster: %v", err)
					return
				}
				time.Sleep(time.Second)
			}
			if err != nil {
				w.Fail("token-error", "no token could be made: %v", err)
				return
			}
			for _, pt := range kw.b.parts {
				at[pt.name] = pt.end()
				for o := pt.end() - 1; o >= pt.first; o-- {
					if times[pt.name][o] >= ts {
						at[pt.name] = o
					}
				}
			}
			w.Log("token for %d: %s", ts-began, token)
			if p.P["token"] == 2 {
				// Partitions added later are not in it.
				rest := []byte{}
				for i, s := range splitToken(token) {
					if i%2 == int(p.Seed%2) {
						delete(at, s[0])
						continue
					}
					if len(rest) > 0 {
						rest = append(rest, ';')
					}
					rest = append(rest, (s[0] + "=" + s[1])...)
				}
				token = rest
			}
		case "start":
			if begun || token == nil {
				break
			}
			kw.c.calm()
			w.Calm()
			cfg := &delivery.ConsumerConfig{LastEmittedNum: root.num, LastHash: root.hash, LastWeight: new(big.Int).Set(root.weight), ReorgThreshold: 64, TrackedPrefixes: tracked}
			if p.P["empty"] == 1 {
				cfg = &delivery.ConsumerConfig{ReorgThreshold: 64, TrackedPrefixes: tracked}
			}
			before, after := false, false
			for _, pt := range kw.b.parts {
				o, ok := at[pt.name]
				switch {
				case ok:
					start[pt.name] = o
					if p.P["rollback"] > 0 {
						start[pt.name] = o - p.P["rollback"]
					}
				case p.P["empty"] == 1 && p.P["rollback"] >= 0:
					start[pt.name] = pt.end() - 1
				}
				if start[pt.name] < pt.first {
					start[pt.name] = pt.first
				}
				before = before || start[pt.name] > pt.first
				after = after || start[pt.name] < pt.end()
			}
			if before && after {
				w.Probes["nontrivial"] = 1
			}
			gone := ""
			if p.P["token"] == 3 {
				for i := range kw.b.parts {
					pt := kw.b.parts[(i+int(p.Seed%5))%len(kw.b.parts)]
					o, ok := at[pt.name]
					if !ok || p.P["rollback"] > o {
						continue
					}
					if p.Seed%2 == 0 || o == pt.end() {
						gone = fmt.Sprintf("%s=%d", pt.name, pt.end()+1+int64(p.Seed%7)+max(0, p.P["rollback"]))
						token = []byte(strings.Replace(string(token), fmt.Sprintf("%s=%d", pt.name, o), gone, 1))
					} else {
						gone = fmt.Sprintf("%s=%d", pt.name, o)
						kw.kpart(pt).truncate(o + 1 + (pt.end()-o-1)*int64(p.Seed%8)/7)
						w.Fault("retention")
					}
					break
				}
			}
			var err error
			if gone != "" {
				k.c, err = gotC(transports.ResolveConsumer(url, mainTopic, kw.topics, token, p.P["rollback"], cfg))
				if err == nil {
					err = k.c.Start()
					k.c.Close()
				}
				if err == nil {
					w.Fail("started", "a consumer was started from token %s with rollback %d although there is nothing at %s", token, p.P["rollback"], gone)
				}
				w.Probe("refused")
				return
			}
			if p.P["mux"] == 1 && len(kw.topics) > 1 {
				k.c, err = gotC(transports.ResolveMuxConsumer(params(), token, cfg))
			} else if p.Seed%5 == 0 {
				k.c, err = gotC(transports.NewKafkaConsumer(url, mainTopic, kw.topics, token, p.P["rollback"], cfg))
			} else {
				k.c, err = gotC(transports.ResolveConsumer(url, mainTopic, kw.topics, token, p.P["rollback"], cfg))
			}
			if err != nil {
				w.Fail("consumer-error", "a consumer could not be created from token %s: %v", token, err)
				return
			}
			pch := make(chan *delivery.PendingBatch, int(p.Seed%2))
			k.c.Subscribe(pch)
			go func() {
				for {
					select {
					case pb := <-pch:
						got[pb.Hash]++
					case <-k.stop:
						return
					}
				}
			}()
			if err := k.c.Start(); err != nil {
				w.Fail("consumer-error", "a consumer could not be started from token %s: %v", token, err)
				return
			}
			begun = true
			go func() { <-k.c.Ready() }()
			if p.P["mux"] == 1 && p.P["empty"] == 1 {
				// Slow transports go on starting in the background, and
				// without a known block start from when they are done.
				time.Sleep(5*time.Second + 4*time.Duration(len(kw.b.parts))*time.Duration(kw.c.maxWait)*time.Millisecond)
			}
		}
		if w.Failed() {
			return
		}
		h := []int64{int64(len(got))}
		for _, pt := range kw.b.parts {
			h = append(h, pt.end(), start[pt.name])
		}
		w.State(core.Mix(h...))
	}
	if !begun {
		return
	}
	have := map[types.Hash]map[string]bool{}
	for _, pt := range kw.b.parts {
		for _, m := range pt.log {
			if m.off >= start[pt.name] {
				h := types.BytesToHash(m.key[1:33])
				if have[h] == nil {
					have[h] = map[string]bool{}
				}
				have[h][string(m.key)] = true
			}
		}
	}
	full := map[types.Hash]bool{}
	for _, n := range kw.order {
		ok := true
		for key := range kw.blks[n.id].needed(kw.all[n.hash], kw.ref, tracked) {
			if !have[n.hash][key] {
				ok = false
			}
		}
		full[n.hash] = ok
	}
	kw.settle(90*time.Second, func() bool {
		for _, n := range kw.order {
			if full[n.hash] && got[n.hash] == 0 {
				return false
			}
		}
		return true
	})
	desc := fmt.Sprintf("token %s, rollback %d, starting block known: %v", token, p.P["rollback"], p.P["empty"] == 0)
	for _, n := range kw.order {
		if full[n.hash] && got[n.hash] == 0 {
			w.Fail("missing", "%s: the consumer was not given %v, all of whose messages lie after its starting point", desc, n)
			return
		}
		if !full[n.hash] && got[n.hash] > 0 {
			w.Fail("history", "%s: the consumer was given %v although messages of it lie before its starting point", desc, n)
			return
		}
		if got[n.hash] > 1 {
			w.Fail("emitted-twice", "%s: the consumer was given %v %d times", desc, n, got[n.hash])
			return
		}
	}
	if p.P["token"] != 1 {
		w.Probe("resumed")
	}
	close(k.stop)
}

func sarErr(i int64) sarama.KError {
	return []sarama.KError{sarama.ErrNotLeaderForPartition, sarama.ErrLeaderNotAvailable, sarama.ErrUnknownTopicOrPartition, sarama.ErrRequestTimedOut, sarama.ErrReplicaNotAvailable, sarama.ErrBrokerNotAvailable}[i%6]
}

// splitToken lists the positions of a token.
func splitToken(t []byte) [][2]string {
	var out [][2]string
	for _, s := range strings.Split(string(t), ";") {
		if kv := strings.SplitN(s, "=", 2); len(kv) == 2 {
			out = append(out, [2]string{kv[0], kv[1]})
		}
	}
	return out
}
