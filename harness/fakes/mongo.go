package fakes

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/globalsign/mgo"
	"github.com/globalsign/mgo/bson"
)

// Mongo is a stand-alone MongoDB server (wire version of MongoDB 3.6,
// commands in OP_QUERY).
type Mongo struct {
	mu     sync.Mutex
	colls  map[string]*mcoll
	decide Decider
	ids    int
	// between is called, if set, before an upsert inserts what it did not
	// find: the server then goes on with other requests
	between func(request string)
}

// Between sets it; Reset removes it.
func (s *Mongo) Between(f func(request string)) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.between = f
}

type mcoll struct {
	docs    []bson.D
	indexes []bson.D
}

// NewMongo makes one.
func NewMongo() *Mongo { return &Mongo{colls: map[string]*mcoll{}} }

// Reset empties the server.
func (s *Mongo) Reset(d Decider) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.colls, s.decide, s.between = map[string]*mcoll{}, d, nil
}

// Session connects to the server.
func (s *Mongo) Session() (*mgo.Session, error) {
	return mgo.DialWithInfo(&mgo.DialInfo{
		Addrs: []string{"127.0.0.1:27017"}, Direct: true, FailFast: true, Timeout: time.Minute,
		DialServer: func(*mgo.ServerAddr) (net.Conn, error) {
			a, b := net.Pipe()
			go s.serve(b)
			return a, nil
		},
	})
}

// Refused asks whether a connection attempt fails.
func (s *Mongo) Refused() bool {
	s.mu.Lock()
	d := s.decide
	s.mu.Unlock()
	return d != nil && d("connect") == Refused
}

// TTL is one pass of the TTL monitor.
func (s *Mongo) TTL() {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, c := range s.colls {
		for _, ix := range c.indexes {
			after, ok := num(get(ix, "expireAfterSeconds"))
			if !ok {
				continue
			}
			key, _ := get(ix, "key").(bson.D)
			if len(key) != 1 {
				continue
			}
			var keep []bson.D
			for _, d := range c.docs {
				t, ok := get(d, key[0].Name).(time.Time)
				if ok && !t.Add(time.Duration(after)*time.Second).After(now()) {
					continue
				}
				keep = append(keep, d)
			}
			c.docs = keep
		}
	}
}

// Dump lists the documents of a collection by a key field.
func (s *Mongo) Dump(coll, key string) map[string]bson.D {
	s.mu.Lock()
	defer s.mu.Unlock()
	out := map[string]bson.D{}
	if c := s.colls[coll]; c != nil {
		for _, d := range c.docs {
			k := fmt.Sprint(get(d, key))
			if _, dup := out[k]; dup {
				k += " (again)"
			}
			out[k] = d
		}
	}
	return out
}

// Indexes lists a collection's indexes.
func (s *Mongo) Indexes(coll string) []bson.D {
	s.mu.Lock()
	defer s.mu.Unlock()
	if c := s.colls[coll]; c != nil {
		return c.indexes
	}
	return nil
}

func get(d bson.D, name string) interface{} {
	for _, e := range d {
		if e.Name == name {
			return e.Value
		}
	}
	return nil
}

func has(d bson.D, name string) bool {
	for _, e := range d {
		if e.Name == name {
			return true
		}
	}
	return false
}

func put(d bson.D, name string, v interface{}) bson.D {
	for i, e := range d {
		if e.Name == name {
			d[i].Value = v
			return d
		}
	}
	return append(d, bson.DocElem{Name: name, Value: v})
}

func num(v interface{}) (int64, bool) {
	switch v := v.(type) {
	case int:
		return int64(v), true
	case int32:
		return int64(v), true
	case int64:
		return v, true
	case float64:
		return int64(v), v == float64(int64(v))
	}
	return 0, false
}

func float(v interface{}) (float64, bool) {
	if f, ok := v.(float64); ok {
		return f, true
	}
	n, ok := num(v)
	return float64(n), ok
}

func (s *Mongo) serve(c net.Conn) {
	defer c.Close()
	for {
		h := make([]byte, 16)
		if _, err := io.ReadFull(c, h); err != nil {
			return
		}
		n := int(binary.LittleEndian.Uint32(h))
		if n < 16 || n > 1<<24 {
			return
		}
		body := make([]byte, n-16)
		if _, err := io.ReadFull(c, body); err != nil {
			return
		}
		id, op := binary.LittleEndian.Uint32(h[4:]), binary.LittleEndian.Uint32(h[12:])
		if op == 2007 { // kill cursors: no reply
			continue
		}
		if op != 2004 { // OP_QUERY only, as the wire version says
			return
		}
		i := bytes.IndexByte(body[4:], 0)
		if i < 0 {
			return
		}
		coll, rest := string(body[4:4+i]), body[4+i+1+8:]
		var q bson.D
		if err := bson.Unmarshal(rest, &q); err != nil {
			return
		}
		if has(q, "$query") {
			q = get(q, "$query").(bson.D)
		}
		f := None
		var res bson.D
		if !strings.HasSuffix(coll, ".$cmd") || len(q) == 0 {
			res = bson.D{{Name: "ok", Value: 0}, {Name: "errmsg", Value: "no such query"}, {Name: "code", Value: 59}}
		} else {
			switch strings.ToLower(q[0].Name) {
			case "ismaster", "ping", "getnonce", "buildinfo", "endsessions":
			default:
				s.mu.Lock()
				d := s.decide
				s.mu.Unlock()
				if d != nil {
					f = d(fmt.Sprint(q))
				}
			}
			switch f {
			case CutBefore:
				return
			case ErrorLine:
				res = bson.D{{Name: "ok", Value: 0}, {Name: "errmsg", Value: "not authorized to execute command"}, {Name: "code", Value: 13}}
			default:
				s.mu.Lock()
				r, err := s.exec(strings.TrimSuffix(coll, ".$cmd"), q)
				s.mu.Unlock()
				if err != nil {
					r = bson.D{{Name: "ok", Value: 0}, {Name: "errmsg", Value: err.Error()}, {Name: "code", Value: err.code}}
				} else {
					r = append(r, bson.DocElem{Name: "ok", Value: 1})
				}
				res = r
			}
		}
		doc, err := bson.Marshal(res)
		if err != nil {
			panic(err)
		}
		out := make([]byte, 36, 36+len(doc))
		binary.LittleEndian.PutUint32(out, uint32(36+len(doc)))
		binary.LittleEndian.PutUint32(out[8:], id)
		binary.LittleEndian.PutUint32(out[12:], 1)
		binary.LittleEndian.PutUint32(out[32:], 1)
		if f == CutMid {
			// within the header: a cut within the document lets the driver
			// hand out the dying connection once more
			c.Write(out[:20])
			return
		}
		if !reply(c, f, append(out, doc...)) {
			return
		}
	}
}

type merr struct {
	error
	code int
}

func fail(code int, format string, a ...interface{}) *merr {
	return &merr{fmt.Errorf(format, a...), code}
}

func docs(v interface{}) (out []bson.D) {
	l, _ := v.([]interface{})
	for _, e := range l {
		if d, ok := e.(bson.D); ok {
			out = append(out, d)
		}
	}
	return
}

func (s *Mongo) coll(db string, name interface{}) *mcoll {
	full := fmt.Sprintf("%s.%v", db, name)
	c := s.colls[full]
	if c == nil {
		c = &mcoll{}
		s.colls[full] = c
	}
	return c
}

func (s *Mongo) exec(db string, q bson.D) (bson.D, *merr) {
	name := q[0].Name
	switch strings.ToLower(name) {
	case "ismaster":
		return bson.D{{Name: "ismaster", Value: true}, {Name: "maxWireVersion", Value: 6}, {Name: "minWireVersion", Value: 0}, {Name: "maxBsonObjectSize", Value: 16777216}}, nil
	case "getnonce":
		return bson.D{{Name: "nonce", Value: "2375531c32080ae8"}}, nil
	case "ping", "endsessions":
		return bson.D{}, nil
	case "buildinfo":
		return bson.D{{Name: "version", Value: "3.6.23"}, {Name: "versionArray", Value: []int{3, 6, 23, 0}}}, nil
	case "find", "count":
		c := s.coll(db, q[0].Value)
		fn := "filter"
		if name == "count" {
			fn = "query"
		}
		filter, _ := get(q, fn).(bson.D)
		limit, _ := num(get(q, "limit"))
		skip, _ := num(get(q, "skip"))
		var out []interface{}
		for _, d := range c.docs {
			ok, err := match(d, filter)
			if err != nil {
				return nil, err
			}
			if !ok {
				continue
			}
			if skip > 0 {
				skip--
				continue
			}
			out = append(out, project(d, get(q, "projection")))
			if limit != 0 && int64(len(out)) >= abs(limit) {
				break
			}
		}
		if name == "count" {
			return bson.D{{Name: "n", Value: len(out)}}, nil
		}
		if out == nil {
			out = []interface{}{}
		}
		return bson.D{{Name: "cursor", Value: bson.D{{Name: "firstBatch", Value: out}, {Name: "id", Value: int64(0)}, {Name: "ns", Value: fmt.Sprintf("%s.%v", db, q[0].Value)}}}}, nil
	case "insert":
		c := s.coll(db, q[0].Value)
		n := 0
		for i, d := range docs(get(q, "documents")) {
			if err := s.insert(c, d); err != nil {
				return writeErr(n, i, err), nil
			}
			n++
		}
		return bson.D{{Name: "n", Value: n}}, nil
	case "update":
		c := s.coll(db, q[0].Value)
		n, mod := 0, 0
		var ups []interface{}
		for i, u := range docs(get(q, "updates")) {
			filter, _ := get(u, "q").(bson.D)
			change, _ := get(u, "u").(bson.D)
			multi, _ := get(u, "multi").(bool)
			upsert, _ := get(u, "upsert").(bool)
			k, id, _, err := s.update(c, filter, change, multi, upsert)
			if err != nil {
				return writeErr(n, i, err), nil
			}
			n += k
			if id != nil {
				n++
				ups = append(ups, bson.D{{Name: "index", Value: i}, {Name: "_id", Value: id}})
			} else {
				mod += k
			}
		}
		r := bson.D{{Name: "n", Value: n}, {Name: "nModified", Value: mod}}
		if ups != nil {
			r = append(r, bson.DocElem{Name: "upserted", Value: ups})
		}
		return r, nil
	case "delete":
		c := s.coll(db, q[0].Value)
		n := 0
		for i, u := range docs(get(q, "deletes")) {
			filter, _ := get(u, "q").(bson.D)
			limit, _ := num(get(u, "limit"))
			var keep []bson.D
			for _, d := range c.docs {
				ok, err := match(d, filter)
				if err != nil {
					return writeErr(n, i, err), nil
				}
				if ok && (limit == 0 || n == 0) {
					n++
					continue
				}
				keep = append(keep, d)
			}
			c.docs = keep
		}
		return bson.D{{Name: "n", Value: n}}, nil
	case "findandmodify":
		c := s.coll(db, q[0].Value)
		filter, _ := get(q, "query").(bson.D)
		change, _ := get(q, "update").(bson.D)
		upsert, _ := get(q, "upsert").(bool)
		remove, _ := get(q, "remove").(bool)
		wantNew, _ := get(q, "new").(bool)
		var old bson.D
		for i, d := range c.docs {
			ok, err := match(d, filter)
			if err != nil {
				return nil, err
			}
			if ok {
				old = append(bson.D{}, d...)
				if remove {
					c.docs = append(c.docs[:i:i], c.docs[i+1:]...)
				}
				break
			}
		}
		led := bson.D{{Name: "n", Value: 0}, {Name: "updatedExisting", Value: false}}
		var val interface{}
		if old != nil {
			val = old
			led = bson.D{{Name: "n", Value: 1}, {Name: "updatedExisting", Value: !remove}}
		}
		if !remove {
			_, id, doc, err := s.update(c, filter, change, false, upsert)
			if err != nil {
				return nil, err
			}
			if id != nil {
				led = bson.D{{Name: "n", Value: 1}, {Name: "updatedExisting", Value: false}, {Name: "upserted", Value: id}}
			}
			if wantNew && doc != nil {
				val = doc
			}
		}
		return bson.D{{Name: "lastErrorObject", Value: led}, {Name: "value", Value: val}}, nil
	case "createindexes":
		c := s.coll(db, q[0].Value)
		for _, ix := range docs(get(q, "indexes")) {
			dup := false
			for _, old := range c.indexes {
				if get(old, "name") != get(ix, "name") && !reflect.DeepEqual(get(old, "key"), get(ix, "key")) {
					continue
				}
				if !reflect.DeepEqual(old, ix) {
					return nil, fail(85, "Index with name: %v already exists with different options", get(ix, "name"))
				}
				dup = true
			}
			if !dup {
				c.indexes = append(c.indexes, ix)
			}
		}
		return bson.D{}, nil
	case "drop":
		delete(s.colls, fmt.Sprintf("%s.%v", db, q[0].Value))
		return bson.D{}, nil
	}
	return nil, fail(59, "no such command: '%s'", name)
}

func abs(n int64) int64 {
	if n < 0 {
		return -n
	}
	return n
}

func writeErr(n, i int, err *merr) bson.D {
	return bson.D{{Name: "n", Value: n}, {Name: "writeErrors", Value: []interface{}{bson.D{{Name: "index", Value: i}, {Name: "code", Value: err.code}, {Name: "errmsg", Value: err.Error()}}}}}
}

func (s *Mongo) unique(c *mcoll, d bson.D, self int) *merr {
	fields := []string{"_id"}
	for _, ix := range c.indexes {
		if u, _ := get(ix, "unique").(bool); u {
			if key, ok := get(ix, "key").(bson.D); ok && len(key) == 1 {
				fields = append(fields, key[0].Name)
			}
		}
	}
	for _, f := range fields {
		for i, o := range c.docs {
			if i != self && equal(get(o, f), get(d, f)) {
				return fail(11000, "E11000 duplicate key error index: %s dup key: %v", f, get(d, f))
			}
		}
	}
	return nil
}

func (s *Mongo) insert(c *mcoll, d bson.D) *merr {
	if !has(d, "_id") {
		s.ids++
		d = append(bson.D{{Name: "_id", Value: bson.ObjectId(fmt.Sprintf("%012d", s.ids))}}, d...)
	}
	if err := s.unique(c, d, -1); err != nil {
		return err
	}
	c.docs = append(c.docs, d)
	return nil
}

func (s *Mongo) update(c *mcoll, filter, change bson.D, multi, upsert bool) (n int, upserted interface{}, doc bson.D, err *merr) {
	for i, d := range c.docs {
		ok, err := match(d, filter)
		if err != nil {
			return n, nil, nil, err
		}
		if !ok {
			continue
		}
		nd, err := apply(append(bson.D{}, d...), change, false)
		if err != nil {
			return n, nil, nil, err
		}
		if err := s.unique(c, nd, i); err != nil {
			return n, nil, nil, err
		}
		c.docs[i], doc = nd, nd
		n++
		if !multi {
			break
		}
	}
	if n == 0 && upsert {
		var d bson.D
		for _, e := range filter {
			if _, op := e.Value.(bson.D); !op && !strings.HasPrefix(e.Name, "$") {
				d = append(d, e)
			}
		}
		repl := len(change) == 0 || !strings.HasPrefix(change[0].Name, "$")
		if repl {
			id := get(d, "_id")
			d = nil
			if id != nil {
				d = bson.D{{Name: "_id", Value: id}}
			}
		}
		d, err = apply(d, change, true)
		if err != nil {
			return
		}
		if f := s.between; f != nil {
			s.mu.Unlock()
			f(fmt.Sprint("insert ", d))
			s.mu.Lock()
		}
		if err = s.insert(c, d); err != nil {
			return
		}
		doc = c.docs[len(c.docs)-1]
		return 0, get(doc, "_id"), doc, nil
	}
	return
}

func apply(d, change bson.D, inserting bool) (bson.D, *merr) {
	if len(change) == 0 || !strings.HasPrefix(change[0].Name, "$") {
		id := get(d, "_id")
		nd := bson.D{}
		if id != nil {
			if has(change, "_id") && !equal(get(change, "_id"), id) {
				return nil, fail(66, "the (immutable) field '_id' was altered")
			}
			nd = append(nd, bson.DocElem{Name: "_id", Value: id})
		}
		for _, e := range change {
			if id != nil && e.Name == "_id" {
				continue
			}
			nd = append(nd, e)
		}
		return nd, nil
	}
	for _, op := range change {
		fields, ok := op.Value.(bson.D)
		if !ok {
			return nil, fail(9, "Modifiers operate on fields")
		}
		for _, f := range fields {
			switch op.Name {
			case "$set":
				d = put(d, f.Name, f.Value)
			case "$setOnInsert":
				if inserting {
					d = put(d, f.Name, f.Value)
				}
			case "$unset":
				var nd bson.D
				for _, e := range d {
					if e.Name != f.Name {
						nd = append(nd, e)
					}
				}
				d = nd
			case "$inc":
				by, ok := num(f.Value)
				if !ok {
					return nil, fail(14, "Cannot increment with non-numeric argument")
				}
				if !has(d, f.Name) {
					d = put(d, f.Name, f.Value)
					continue
				}
				old := get(d, f.Name)
				if fl, ok := old.(float64); ok {
					d = put(d, f.Name, fl+float64(by))
					continue
				}
				v, ok := num(old)
				if !ok {
					return nil, fail(14, "Cannot apply $inc to a value of non-numeric type")
				}
				d = put(d, f.Name, v+by)
			case "$max", "$min":
				cmp, ok := compare(f.Value, get(d, f.Name))
				if !has(d, f.Name) || ok && (cmp > 0) == (op.Name == "$max") && cmp != 0 {
					d = put(d, f.Name, f.Value)
				}
			case "$currentDate":
				d = put(d, f.Name, now())
			default:
				return nil, fail(9, "Unknown modifier: %s", op.Name)
			}
		}
	}
	return d, nil
}

func equal(a, b interface{}) bool {
	if c, ok := compare(a, b); ok {
		return c == 0
	}
	return reflect.DeepEqual(a, b)
}

func compare(a, b interface{}) (int, bool) {
	if x, ok := float(a); ok {
		if y, ok := float(b); ok {
			switch {
			case x < y:
				return -1, true
			case x > y:
				return 1, true
			}
			return 0, true
		}
		return 0, false
	}
	switch x := a.(type) {
	case string:
		if y, ok := b.(string); ok {
			return strings.Compare(x, y), true
		}
	case time.Time:
		if y, ok := b.(time.Time); ok {
			switch {
			case x.Before(y):
				return -1, true
			case x.After(y):
				return 1, true
			}
			return 0, true
		}
	}
	return 0, false
}

func match(d, filter bson.D) (bool, *merr) {
	for _, f := range filter {
		switch f.Name {
		case "$and", "$or", "$nor":
			any, all := false, true
			for _, sub := range docs(f.Value) {
				ok, err := match(d, sub)
				if err != nil {
					return false, err
				}
				any, all = any || ok, all && ok
			}
			if f.Name == "$and" && !all || f.Name == "$or" && !any || f.Name == "$nor" && any {
				return false, nil
			}
			continue
		}
		if strings.HasPrefix(f.Name, "$") {
			return false, fail(2, "unknown top level operator: %s", f.Name)
		}
		v := get(d, f.Name)
		ops, isOps := f.Value.(bson.D)
		if !isOps || len(ops) == 0 || !strings.HasPrefix(ops[0].Name, "$") {
			if !equal(v, f.Value) {
				return false, nil
			}
			continue
		}
		for _, o := range ops {
			ok, err := matchOp(d, f.Name, v, o)
			if err != nil || !ok {
				return false, err
			}
		}
	}
	return true, nil
}

func matchOp(d bson.D, name string, v interface{}, o bson.DocElem) (bool, *merr) {
	c, ok := compare(v, o.Value)
	switch o.Name {
	case "$eq":
		return equal(v, o.Value), nil
	case "$ne":
		return !equal(v, o.Value), nil
	case "$lt":
		return ok && c < 0, nil
	case "$lte":
		return ok && c <= 0, nil
	case "$gt":
		return ok && c > 0, nil
	case "$gte":
		return ok && c >= 0, nil
	case "$exists":
		b, isB := o.Value.(bool)
		if n, isN := num(o.Value); isN {
			b, isB = n != 0, true
		}
		return isB && has(d, name) == b, nil
	case "$in", "$nin":
		l, _ := o.Value.([]interface{})
		in := false
		for _, e := range l {
			in = in || equal(v, e)
		}
		return in == (o.Name == "$in"), nil
	case "$not":
		sub, _ := o.Value.(bson.D)
		for _, so := range sub {
			ok, err := matchOp(d, name, v, so)
			if err != nil {
				return false, err
			}
			if !ok {
				return true, nil
			}
		}
		return false, nil
	}
	return false, fail(2, "unknown operator: %s", o.Name)
}

func project(d bson.D, p interface{}) bson.D {
	proj, _ := p.(bson.D)
	if len(proj) == 0 {
		return d
	}
	incl := false
	for _, e := range proj {
		if n, ok := num(e.Value); ok && n != 0 && e.Name != "_id" {
			incl = true
		} else if b, ok := e.Value.(bool); ok && b && e.Name != "_id" {
			incl = true
		}
	}
	var out bson.D
	for _, e := range d {
		if e.Name == "_id" {
			if n, ok := num(get(proj, "_id")); has(proj, "_id") && ok && n == 0 {
				continue
			}
			out = append(out, e)
			continue
		}
		if has(proj, e.Name) == incl {
			out = append(out, e)
		}
	}
	return out
}

// SortedKeys of a dump.
func SortedKeys(m map[string]bson.D) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
