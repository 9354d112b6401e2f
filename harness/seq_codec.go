//go:build go1.23

package main

import (
	"bytes"
	stdjson "encoding/json"
	"fmt"
	"math"
	"reflect"

	"github.com/aws/go-kafka-event-source/streams"
	"github.com/twmb/franz-go/pkg/kgo"
)

// roundTrip encodes behind something else and decodes exactly what was written.
func roundTrip[T any](c *EnumCtx, name string, k streams.Codec[T], v T, eq func(a, b T) bool) []byte {
	c.Evals++
	var b bytes.Buffer
	b.WriteString("x")
	if err := k.Encode(&b, v); err != nil {
		c.Fail("codec:"+name, "%s: encoding %v: %v", name, v, err)
		return nil
	}
	if b.Len() < 1 || b.Bytes()[0] != 'x' {
		c.Fail("codec:"+name, "%s: encoding %v overwrites what was in the buffer", name, v)
		return nil
	}
	enc := append([]byte(nil), b.Bytes()[1:]...)
	back, err := k.Decode(enc)
	if err != nil || !eq(v, back) {
		c.Fail("codec:"+name, "%s: %v comes back as %v, %v (encoded %x)", name, v, back, err, enc)
	}
	return enc
}

func same[T comparable](a, b T) bool { return a == b }

// around lists the integers near all powers of two, both signs.
func around(near int64) (l []int64) {
	seen := map[int64]bool{}
	add := func(v int64) {
		if !seen[v] {
			seen[v] = true
			l = append(l, v)
		}
	}
	for i := 0; i < 64; i++ {
		for d := -near; d <= near; d++ {
			add(int64(uint64(1)<<i) + d)
			add(-int64(uint64(1)<<i) + d)
		}
	}
	return
}

type inner struct {
	S string
	P *int `json:"p,omitempty"`
}

type doc struct {
	A int64
	B string            `json:"b"`
	C []inner           `json:"c"`
	D map[string]string `json:"d,omitempty"`
	E float64
	F bool
	h int
}

func init() {
	addEnum(&Enum{Name: "codec-int", Props: []string{"C17"}, Doc: "integer codecs: values come back, lexicographic order is numeric order", Fn: func(c *EnumCtx) {
		width, near := int64(1<<17), int64(300)
		if !c.Quick() {
			width, near = 1<<24, 70000
		}
		c.Bound = fmt.Sprintf("all integers up to +-%d, all within %d of a power of two; order of all neighbours and of all pairs of the %s", width, near, "boundary values")
		one := func(v int64) []byte {
			roundTrip[int](c, "int", streams.IntCodec, int(v), same[int])
			roundTrip[int64](c, "int64", streams.Int64Codec, v, same[int64])
			if v >= math.MinInt32 && v <= math.MaxInt32 {
				roundTrip[int32](c, "int32", streams.Int32Codec, int32(v), same[int32])
			}
			e := roundTrip[int64](c, "lexo", streams.LexoInt64Codec, v, same[int64])
			if len(e) != streams.LexInt64Size {
				c.Fail("codec:lexo-size", "LexoInt64Codec: %d is encoded in %d bytes", v, len(e))
			}
			return e
		}
		for lo := -width; lo < width && !c.Expired(); lo += 1 << 12 {
			if !c.Mine() {
				continue
			}
			prev := one(lo)
			for v := lo + 1; v <= lo+1<<12; v++ {
				e := one(v)
				if bytes.Compare(prev, e) >= 0 {
					c.Fail("codec:lexo-order", "LexoInt64Codec: %d (%x) does not sort before %d (%x)", v-1, prev, v, e)
				}
				prev = e
			}
		}
		pts := around(1)
		for _, base := range around(0) {
			if !c.Mine() || c.Expired() {
				continue
			}
			var prev []byte
			for d := -near; d <= near; d++ {
				v := base + d
				if d < 0 && v > base || d > 0 && v < base {
					prev = nil // beyond the range of int64
					continue
				}
				e := one(v)
				if prev != nil && bytes.Compare(prev, e) >= 0 {
					c.Fail("codec:lexo-order", "LexoInt64Codec: %d (%x) does not sort before %d (%x)", v-1, prev, v, e)
				}
				prev = e
			}
			eb := one(base)
			for _, p := range pts {
				if ep := one(p); (base < p) != (bytes.Compare(eb, ep) < 0) {
					c.Fail("codec:lexo-order", "LexoInt64Codec: %d (%x) and %d (%x) are not in order", base, eb, p, ep)
				}
			}
		}
		for n := 0; n < 20; n++ {
			if _, err := streams.LexoInt64Codec.Decode(make([]byte, n)); (err == nil) != (n == streams.LexInt64Size) {
				c.Fail("codec:lexo-size", "LexoInt64Codec: decoding %d bytes: %v", n, err)
			}
		}
	}})
	addEnum(&Enum{Name: "codec-text", Props: []string{"C17"}, Doc: "string, byte and JSON codecs", Fn: func(c *EnumCtx) {
		n := 3
		if !c.Quick() {
			n = 4
		}
		alpha := []string{"", "a", "\x00", "\xff", "\"", "\\", "\n", "<", "é", "\u2028", "\U0001f600", "{"}
		c.Bound = fmt.Sprintf("all strings of up to %d of %d characters, invalid UTF-8 included for the raw codecs; a document with them in every field", n, len(alpha))
		for x := 0; x < pow(len(alpha), n) && !c.Expired(); x++ {
			if !c.Mine() {
				continue
			}
			s, valid := "", true
			for i, y := 0, x; i < n; i, y = i+1, y/len(alpha) {
				s += alpha[y%len(alpha)]
				valid = valid && alpha[y%len(alpha)] != "\xff"
			}
			if e := roundTrip(c, "string", streams.StringCodec, s, same[string]); string(e) != s {
				c.Fail("codec:string", "StringCodec encodes %q as %q", s, e)
			}
			if e := roundTrip(c, "bytes", streams.ByteCodec, []byte(s), bytes.Equal); string(e) != s {
				c.Fail("codec:bytes", "ByteCodec encodes %q as %q", s, e)
			}
			if !valid {
				continue
			}
			roundTrip[string](c, "json", streams.JsonCodec[string]{}, s, same[string])
			one := len(s)
			d := doc{A: int64(x) << 40, B: s, E: float64(x) / 8, F: x%2 == 0}
			if x%3 > 0 {
				d.C = []inner{{s, &one}, {"", nil}}[:x%3]
				d.D = map[string]string{s: s, "": "x"}
			}
			e := roundTrip[doc](c, "json", streams.JsonCodec[doc]{}, d, func(a, b doc) bool { return reflect.DeepEqual(a, b) })
			var std doc
			if err := stdjson.Unmarshal(e, &std); err != nil || !reflect.DeepEqual(std, d) {
				c.Fail("codec:json", "JsonCodec encodes %+v as %s", d, e)
			}
			r := streams.JsonItemEncoder("t", d)
			r.WriteKeyString(s)
			in := r.AsIncomingRecord()
			if back, err := streams.JsonItemDecoder[doc](in); err != nil || !reflect.DeepEqual(back, d) || in.RecordType() != "t" || string(in.Key()) != s {
				c.Fail("codec:json-item", "JsonItemEncoder, JsonItemDecoder: %+v comes back as %+v, %v (type %q)", d, back, err, in.RecordType())
			}
			r.Release()
			std = doc{}
			cle := streams.EncodeJsonChangeLogEntryValue("t", d)
			if err := stdjson.Unmarshal(cle.ValueWriter().Bytes(), &std); err != nil || !reflect.DeepEqual(std, d) {
				c.Fail("codec:json-item", "EncodeJsonChangeLogEntryValue: %+v becomes %s", d, cle.ValueWriter().Bytes())
			}
			std = doc{}
			cle, err := streams.CreateJsonChangeLogEntry(d)
			if err == nil {
				err = stdjson.Unmarshal(cle.WithKeyString(s).ValueWriter().Bytes(), &std)
			}
			if err != nil || !reflect.DeepEqual(std, d) || cle.KeyWriter().String() != s {
				c.Fail("codec:json-item", "CreateJsonChangeLogEntry: %+v becomes %s", d, cle.ValueWriter().Bytes())
			}
		}
		for _, bad := range []string{"", "{", "[]", `{"A":"x"}`, `{"A":1.5}`, `{"b":1}`, "nul", "\x00"} {
			if _, err := (streams.JsonCodec[doc]{}).Decode([]byte(bad)); err == nil {
				c.Fail("codec:json-error", "JsonCodec decodes %q", bad)
			}
			// whatever went wrong before must not show
			roundTrip[doc](c, "json", streams.JsonCodec[doc]{}, doc{A: 1, B: "after"}, func(a, b doc) bool { return reflect.DeepEqual(a, b) })
		}
	}})
	addEnum(&Enum{Name: "record", Props: []string{"C17"}, Doc: "all sequences of writes to a Record; its copies; its reuse", Fn: recordCheck})
	addEnum(&Enum{Name: "partitioner", Props: []string{"C26"}, Doc: "the optional partitioner: manual partitions, per topic partitioners, Java compatible hashing", Fn: partCheck})
}

type recModel struct {
	key, value string
	topic, typ string
	part       int32
	headers    []kgo.RecordHeader
	typeHeader bool
}

func (m *recModel) allHeaders() []kgo.RecordHeader {
	h := append([]kgo.RecordHeader(nil), m.headers...)
	if m.typ != "" && !m.typeHeader {
		h = append(h, kgo.RecordHeader{Key: streams.RecordTypeHeaderKey, Value: []byte(m.typ)})
	}
	return h
}

func headersEqual(a, b []kgo.RecordHeader) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Key != b[i].Key || !bytes.Equal(a[i].Value, b[i].Value) {
			return false
		}
	}
	return true
}

type rop struct {
	name string
	rec  func(r *streams.Record)
	mod  func(m *recModel)
}

var recOps = []rop{
	{"WriteKey", func(r *streams.Record) { r.WriteKey([]byte("k"), []byte("1")) }, func(m *recModel) { m.key += "k1" }},
	{"WithKey", func(r *streams.Record) { r.WithKey([]byte("K")) }, func(m *recModel) { m.key += "K" }},
	{"WithKeyString", func(r *streams.Record) { r.WithKeyString("s", "t") }, func(m *recModel) { m.key += "st" }},
	{"KeyWriter", func(r *streams.Record) { r.KeyWriter().WriteString("w") }, func(m *recModel) { m.key += "w" }},
	{"WriteValue", func(r *streams.Record) { r.WriteValue([]byte("v"), nil, []byte("1")) }, func(m *recModel) { m.value += "v1" }},
	{"WithValue", func(r *streams.Record) { r.WithValue([]byte("V"), []byte("2")) }, func(m *recModel) { m.value += "V2" }},
	{"WriteValueString", func(r *streams.Record) { r.WriteValueString("x", "y") }, func(m *recModel) { m.value += "xy" }},
	{"ValueWriter", func(r *streams.Record) { r.ValueWriter().WriteByte('b') }, func(m *recModel) { m.value += "b" }},
	{"WithTopic", func(r *streams.Record) { r.WithTopic("top") }, func(m *recModel) { m.topic = "top" }},
	{"WithPartition0", func(r *streams.Record) { r.WithPartition(0) }, func(m *recModel) { m.part = 0 }},
	{"WithPartition7", func(r *streams.Record) { r.WithPartition(7) }, func(m *recModel) { m.part = 7 }},
	{"WithHeader", func(r *streams.Record) { r.WithHeader("h", []byte("1")) }, func(m *recModel) {
		m.headers = append(m.headers, kgo.RecordHeader{Key: "h", Value: []byte("1")})
	}},
	{"WithHeaderAgain", func(r *streams.Record) { r.WithHeader("h", []byte("2")) }, func(m *recModel) {
		m.headers = append(m.headers, kgo.RecordHeader{Key: "h", Value: []byte("2")})
	}},
	{"WithHeader2", func(r *streams.Record) { r.WithHeader("i", nil) }, func(m *recModel) {
		m.headers = append(m.headers, kgo.RecordHeader{Key: "i"})
	}},
	{"WithRecordType", func(r *streams.Record) { r.WithRecordType("T") }, func(m *recModel) { m.typ = "T" }},
}

func recordCheck(c *EnumCtx) {
	depth := 4
	if !c.Quick() {
		depth = 6
	}
	c.Bound = fmt.Sprintf("all sequences of up to %d of %d writes, each on a recycled record; change log entries alike", depth, len(recOps))
	check := func(seq []int) {
		m := recModel{part: streams.AutoAssign}
		r := streams.NewRecord()
		name := ""
		bad := func(f string, a ...any) { c.Fail("record", "%s: %s", name, fmt.Sprintf(f, a...)) }
		if tp := r.TopicPartition(); tp.Topic != "" || tp.Partition != streams.AutoAssign || r.KeyWriter().Len() > 0 || r.ValueWriter().Len() > 0 || r.Error() != nil {
			bad("a new record is not blank: %v %q %q", tp, r.KeyWriter(), r.ValueWriter())
		}
		for _, o := range seq {
			name += recOps[o].name + " "
			recOps[o].rec(r)
			recOps[o].mod(&m)
		}
		if tp := r.TopicPartition(); tp.Topic != m.topic || tp.Partition != m.part {
			bad("TopicPartition is %v", tp)
		}
		var first *kgo.Record
		var firstIn streams.IncomingRecord
		for i := 0; i < 2; i++ {
			k := r.ToKafkaRecord()
			if string(k.Key) != m.key || string(k.Value) != m.value {
				bad("ToKafkaRecord: %q=%q, want %q=%q", k.Key, k.Value, m.key, m.value)
			}
			if k.Topic != m.topic || k.Partition != m.part {
				bad("ToKafkaRecord: topic %q partition %d, want %q %d", k.Topic, k.Partition, m.topic, m.part)
			}
			if !headersEqual(k.Headers, m.allHeaders()) {
				bad("ToKafkaRecord: headers %v, want %v", k.Headers, m.allHeaders())
			}
			if i == 0 {
				first = k
			} else if k == first {
				bad("ToKafkaRecord returns the same record twice")
			}
			in := r.AsIncomingRecord()
			if i == 0 {
				firstIn = in
			}
			if string(in.Key()) != m.key || string(in.Value()) != m.value || in.RecordType() != m.typ || !headersEqual(in.Headers(), m.allHeaders()) {
				bad("AsIncomingRecord: %q=%q type %q headers %v", in.Key(), in.Value(), in.RecordType(), in.Headers())
			}
			for _, h := range []string{"h", "i", "none", streams.RecordTypeHeaderKey} {
				var want []byte
				for _, x := range m.allHeaders() {
					if x.Key == h {
						want = x.Value
						break
					}
				}
				if !bytes.Equal(in.HeaderValue(h), want) {
					bad("HeaderValue(%s) is %q", h, in.HeaderValue(h))
				}
			}
		}
		// copies stay as they are while the record is recycled
		r.Release()
		n := streams.NewRecord()
		n.WriteKeyString("zzzzzzzzzzzz")
		n.WriteValueString("zzzzzzzzzzzz")
		n.WithHeader("z", []byte("z"))
		if string(first.Key) != m.key || string(first.Value) != m.value || !headersEqual(first.Headers, m.allHeaders()) {
			bad("a copy changes when the record is reused: %q=%q %v", first.Key, first.Value, first.Headers)
		}
		if in := firstIn; string(in.Key()) != m.key || string(in.Value()) != m.value || in.RecordType() != m.typ || !headersEqual(in.Headers(), m.allHeaders()) {
			bad("an incoming record changes when the record it was made from is reused: %q=%q %v", in.Key(), in.Value(), in.Headers())
		}
		n.Release()
		c.Evals++
	}
	var rec func(seq []int)
	rec = func(seq []int) {
		if len(seq) == 2 && !c.Mine() || c.Expired() {
			return
		}
		if len(seq) >= 2 || depth < 2 {
			c.Try("record", seq, func() { check(seq) })
		}
		if len(seq) < depth {
			for o := range recOps {
				rec(append(seq[:len(seq):len(seq)], o))
			}
		}
	}
	rec(nil)
	if c.Mine() {
		check(nil)
		for o := range recOps {
			check([]int{o})
		}
		// foreign records
		for _, typ := range []string{"", "A"} {
			k := &kgo.Record{}
			streams.SetRecordType(k, typ)
			if len(k.Headers) != 1 || k.Headers[0].Key != streams.RecordTypeHeaderKey || string(k.Headers[0].Value) != typ {
				c.Fail("record", "SetRecordType(%q): headers %v", typ, k.Headers)
			}
		}
		cle := streams.NewChangeLogEntry().WithKey([]byte("a"), []byte("b")).WithKeyString("c").WithValue([]byte("d")).WithEntryType("T").WithHeader("h", nil)
		cle.WriteKey([]byte("e"))
		cle.WriteKeyString("f", "g")
		cle.WriteValue([]byte("h"))
		cle.WriteValueString("i")
		if cle.KeyWriter().String() != "abcefg" || cle.ValueWriter().String() != "dhi" {
			c.Fail("record", "change log entry: %q=%q", cle.KeyWriter(), cle.ValueWriter())
		}
	}
}

// murmur2 as in org.apache.kafka.common.utils.Utils.
func murmur2(data []byte) int32 {
	length := int32(len(data))
	h := int32(-1756908916) ^ length // 0x9747b28c
	const m = int32(0x5bd1e995)
	shr := func(v int32, n uint) int32 { return int32(uint32(v) >> n) }
	for i := int32(0); i < length/4; i++ {
		o := i * 4
		k := int32(data[o]) + int32(data[o+1])<<8 + int32(data[o+2])<<16 + int32(data[o+3])<<24
		k *= m
		k ^= shr(k, 24)
		k *= m
		h *= m
		h ^= k
	}
	t := length &^ 3
	switch length % 4 {
	case 3:
		h ^= int32(data[t+2]) << 16
		fallthrough
	case 2:
		h ^= int32(data[t+1]) << 8
		fallthrough
	case 1:
		h ^= int32(data[t])
		h *= m
	}
	h ^= shr(h, 13)
	h *= m
	h ^= shr(h, 15)
	return h
}

type fixedPart struct {
	n    int
	seen *[]string
}

func (f fixedPart) ForTopic(t string) kgo.TopicPartitioner { *f.seen = append(*f.seen, t); return f }
func (f fixedPart) RequiresConsistency(*kgo.Record) bool   { return true }
func (f fixedPart) Partition(*kgo.Record, int) int         { return f.n }

func partCheck(c *EnumCtx) {
	c.Bound = "keys: all of 0 to 2 bytes, 9 bytes in up to 8 positions; 1 to 64 partitions; every manual partition; every assignment of partitioners to 3 topics"
	var keys [][]byte
	for i := 0; i < 256; i++ {
		keys = append(keys, []byte{byte(i)})
		for j := 0; j < 256; j++ {
			keys = append(keys, []byte{byte(i), byte(j)})
		}
	}
	chars := []byte{0, 1, 'a', 'Z', 127, 128, 200, 255, '0'}
	for l := 3; l <= 8; l++ {
		for pos := 0; pos < l; pos++ {
			for _, a := range chars {
				for _, b := range chars {
					k := bytes.Repeat([]byte{a}, l)
					k[pos] = b
					keys = append(keys, k)
				}
			}
		}
	}
	ns := []int{1, 2, 3, 5, 8, 12, 64}
	if !c.Quick() {
		ns = nil
		for n := 1; n <= 64; n++ {
			ns = append(ns, n)
		}
	}
	for _, n := range ns {
		if !c.Mine() || c.Expired() {
			continue
		}
		tp := streams.NewOptionalPartitioner(kgo.StickyKeyPartitioner(nil)).ForTopic("t")
		for _, k := range keys {
			c.Evals++
			want := int(uint32(murmur2(k))&0x7fffffff) % n
			r := &kgo.Record{Key: k, Partition: streams.AutoAssign}
			if !tp.RequiresConsistency(r) {
				c.Fail("partitioner", "a record with key %x may go anywhere", k)
			}
			if got := tp.Partition(r, n); got != want {
				c.Fail("partitioner", "key %x of %d partitions goes to %d, want %d", k, n, got, want)
			}
		}
		for p := 0; p < n; p++ {
			for _, k := range [][]byte{[]byte("k"), {}, nil} {
				r := &kgo.Record{Key: k, Partition: int32(p)}
				if got := tp.Partition(r, n); got != p || !tp.RequiresConsistency(r) {
					c.Fail("partitioner", "a record with key %q for partition %d of %d goes to %d, or to another if there are unavailable ones (%v)", k, p, n, got, tp.RequiresConsistency(r))
				}
			}
		}
	}
	if !c.Mine() {
		return
	}
	topics := []string{"a", "b", ""}
	for set := 0; set < 8; set++ {
		var seen []string
		m := map[string]kgo.Partitioner{}
		for i, t := range topics {
			if set>>i&1 == 1 {
				m[t] = fixedPart{i, &seen}
			}
		}
		op := streams.NewOptionalPerTopicPartitioner(fixedPart{9, &seen}, m)
		for i, t := range append(topics, "other") {
			want := 9
			if i < 3 && set>>i&1 == 1 {
				want = i
			}
			tp := op.ForTopic(t)
			c.Evals++
			if got := tp.Partition(&kgo.Record{Partition: streams.AutoAssign}, 10); got != want || seen[len(seen)-1] != t {
				c.Fail("partitioner", "topics %03b: a record for %q is partitioned to %d, want %d (for topic %q)", set, t, got, want, seen[len(seen)-1])
			}
			for p := 0; p < 10; p++ {
				if got := tp.Partition(&kgo.Record{Partition: int32(p)}, 10); got != p {
					c.Fail("partitioner", "topics %03b: a record for partition %d goes to %d", set, p, got)
				}
			}
		}
	}
}
