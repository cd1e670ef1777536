package fakemongo

import (
	"bytes"
	"math"
	"regexp"
	"strings"

	"go.mongodb.org/mongo-driver/v2/bson"
)

// The order and equality of values in MongoDB.

func typeOrder(v any) int {
	switch v.(type) {
	case bson.MinKey:
		return -1
	case nil, bson.Undefined:
		return 1
	case int32, int64, float64, bson.Decimal128:
		return 2
	case string, bson.Symbol:
		return 3
	case bson.D:
		return 4
	case bson.A:
		return 5
	case bson.Binary:
		return 6
	case bson.ObjectID:
		return 7
	case bool:
		return 8
	case bson.DateTime:
		return 9
	case bson.Timestamp:
		return 10
	case bson.Regex:
		return 11
	case bson.MaxKey:
		return 127
	}
	return 12
}

func toFloat(v any) float64 {
	switch x := v.(type) {
	case int32:
		return float64(x)
	case int64:
		return float64(x)
	case float64:
		return x
	}
	return 0
}

func isInt(v any) (int64, bool) {
	switch x := v.(type) {
	case int32:
		return int64(x), true
	case int64:
		return x, true
	}
	return 0, false
}

func cmpInt[T int | int64 | uint32](a, b T) int {
	if a < b {
		return -1
	}
	if a > b {
		return 1
	}
	return 0
}

func compare(a, b any) int {
	ta, tb := typeOrder(a), typeOrder(b)
	if ta != tb {
		return cmpInt(ta, tb)
	}
	switch x := a.(type) {
	case int32, int64, float64:
		ia, oka := isInt(a)
		ib, okb := isInt(b)
		if oka && okb {
			return cmpInt(ia, ib)
		}
		fa, fb := toFloat(a), toFloat(b)
		switch {
		case math.IsNaN(fa) && math.IsNaN(fb):
			return 0
		case math.IsNaN(fa):
			return -1
		case math.IsNaN(fb):
			return 1
		case fa < fb:
			return -1
		case fa > fb:
			return 1
		}
		return 0
	case string:
		return strings.Compare(x, b.(string))
	case bool:
		y := b.(bool)
		if x == y {
			return 0
		}
		if !x {
			return -1
		}
		return 1
	case bson.DateTime:
		return cmpInt(int64(x), int64(b.(bson.DateTime)))
	case bson.ObjectID:
		y := b.(bson.ObjectID)
		return bytes.Compare(x[:], y[:])
	case bson.Binary:
		y := b.(bson.Binary)
		if c := cmpInt(len(x.Data), len(y.Data)); c != 0 {
			return c
		}
		if c := cmpInt(int(x.Subtype), int(y.Subtype)); c != 0 {
			return c
		}
		return bytes.Compare(x.Data, y.Data)
	case bson.D:
		y := b.(bson.D)
		for i := range x {
			if i >= len(y) {
				return 1
			}
			if c := cmpInt(typeOrder(x[i].Value), typeOrder(y[i].Value)); c != 0 {
				return c
			}
			if c := strings.Compare(x[i].Key, y[i].Key); c != 0 {
				return c
			}
			if c := compare(x[i].Value, y[i].Value); c != 0 {
				return c
			}
		}
		return cmpInt(len(x), len(y))
	case bson.A:
		y := b.(bson.A)
		for i := range x {
			if i >= len(y) {
				return 1
			}
			if c := compare(x[i], y[i]); c != 0 {
				return c
			}
		}
		return cmpInt(len(x), len(y))
	case bson.Timestamp:
		y := b.(bson.Timestamp)
		if c := cmpInt(x.T, y.T); c != 0 {
			return c
		}
		return cmpInt(x.I, y.I)
	}
	return 0
}

func field(d bson.D, key string) (any, bool) {
	for i := range d {
		if d[i].Key == key {
			return d[i].Value, true
		}
	}
	return nil, false
}

// lookup finds the value of a dotted path.
func lookup(d bson.D, path string) (any, bool) {
	if v, ok := field(d, path); ok && !strings.Contains(path, ".") {
		return v, true
	}
	head, rest, dotted := strings.Cut(path, ".")
	v, ok := field(d, head)
	if !dotted || !ok {
		return v, ok
	}
	sub, isDoc := v.(bson.D)
	if !isDoc {
		return nil, false
	}
	return lookup(sub, rest)
}

type badRequest struct {
	code int32
	name string
	msg  string
}

func fail(code int32, name, msg string) { panic(badRequest{code, name, msg}) }

func isOperators(v any) (bson.D, bool) {
	d, ok := v.(bson.D)
	return d, ok && len(d) > 0 && strings.HasPrefix(d[0].Key, "$")
}

func equal(have any, exists bool, want any) bool {
	if want == nil {
		return !exists || have == nil
	}
	if !exists {
		return false
	}
	if r, ok := want.(bson.Regex); ok {
		s, isStr := have.(string)
		if !isStr {
			return false
		}
		p := r.Pattern
		if strings.Contains(r.Options, "i") {
			p = "(?i)" + p
		}
		re, err := regexp.Compile(p)
		return err == nil && re.MatchString(s)
	}
	if a, ok := have.(bson.A); ok {
		if _, wantArr := want.(bson.A); !wantArr {
			for _, e := range a {
				if typeOrder(e) == typeOrder(want) && compare(e, want) == 0 {
					return true
				}
			}
			return false
		}
	}
	return typeOrder(have) == typeOrder(want) && compare(have, want) == 0
}

// matches decides whether a document matches a filter.
func matches(doc, filter bson.D) bool {
	for _, e := range filter {
		switch e.Key {
		case "$and", "$or", "$nor":
			list, ok := e.Value.(bson.A)
			if !ok || len(list) == 0 {
				fail(2, "BadValue", e.Key+" must be a nonempty array")
			}
			n := 0
			for _, c := range list {
				if matches(doc, c.(bson.D)) {
					n++
				}
			}
			if e.Key == "$and" && n != len(list) || e.Key == "$or" && n == 0 || e.Key == "$nor" && n > 0 {
				return false
			}
			continue
		case "$comment":
			continue
		case "$expr", "$where", "$text":
			fail(2, "BadValue", e.Key+" is not supported")
		}
		v, ok := lookup(doc, e.Key)
		if ops, isOps := isOperators(e.Value); isOps {
			for _, op := range ops {
				if !operator(v, ok, op) {
					return false
				}
			}
			continue
		}
		if !equal(v, ok, e.Value) {
			return false
		}
	}
	return true
}

func operator(v any, ok bool, op bson.E) bool {
	sameType := ok && typeOrder(v) == typeOrder(op.Value)
	switch op.Key {
	case "$eq":
		return equal(v, ok, op.Value)
	case "$ne":
		return !equal(v, ok, op.Value)
	case "$in", "$nin":
		list, isList := op.Value.(bson.A)
		if !isList {
			fail(2, "BadValue", op.Key+" needs an array")
		}
		found := false
		for _, w := range list {
			if equal(v, ok, w) {
				found = true
				break
			}
		}
		return found == (op.Key == "$in")
	case "$gt":
		return sameType && compare(v, op.Value) > 0
	case "$gte":
		return sameType && compare(v, op.Value) >= 0
	case "$lt":
		return sameType && compare(v, op.Value) < 0
	case "$lte":
		return sameType && compare(v, op.Value) <= 0
	case "$exists":
		want := true
		switch x := op.Value.(type) {
		case bool:
			want = x
		case int32, int64, float64:
			want = toFloat(x) != 0
		}
		return ok == want
	case "$not":
		if ops, isOps := isOperators(op.Value); isOps {
			for _, o := range ops {
				if !operator(v, ok, o) {
					return true
				}
			}
			return false
		}
		return !equal(v, ok, op.Value)
	case "$regex":
		s, isStr := op.Value.(string)
		if !isStr {
			return equal(v, ok, op.Value)
		}
		return equal(v, ok, bson.Regex{Pattern: s})
	case "$size":
		a, isA := v.(bson.A)
		return isA && float64(len(a)) == toFloat(op.Value)
	}
	fail(2, "BadValue", "unknown operator: "+op.Key)
	return false
}

// setPath returns the document with the value of a dotted path changed.
func setPath(d bson.D, path string, v any) bson.D {
	head, rest, dotted := strings.Cut(path, ".")
	if head == "" || dotted && rest == "" {
		fail(56, "EmptyFieldName", "The update path '"+path+"' contains an empty field name")
	}
	if strings.HasPrefix(head, "$") {
		fail(52, "DollarPrefixedFieldName", "The dollar ($) prefixed field '"+head+"' is not valid for storage.")
	}
	for i := range d {
		if d[i].Key != head {
			continue
		}
		out := append(bson.D{}, d...)
		if !dotted {
			out[i].Value = v
			return out
		}
		sub, isDoc := d[i].Value.(bson.D)
		if !isDoc {
			fail(28, "PathNotViable", "Cannot create field '"+rest+"' in element {"+head+": ...}")
		}
		out[i].Value = setPath(sub, rest, v)
		return out
	}
	if !dotted {
		return append(append(bson.D{}, d...), bson.E{Key: head, Value: v})
	}
	return append(append(bson.D{}, d...), bson.E{Key: head, Value: setPath(bson.D{}, rest, v)})
}

func unsetPath(d bson.D, path string) bson.D {
	head, rest, dotted := strings.Cut(path, ".")
	var out bson.D
	for _, e := range d {
		if e.Key == head {
			if !dotted {
				continue
			}
			if sub, ok := e.Value.(bson.D); ok {
				e.Value = unsetPath(sub, rest)
			}
		}
		out = append(out, e)
	}
	return out
}

func add(a, b any) any {
	ia, oka := isInt(a)
	ib, okb := isInt(b)
	if oka && okb {
		s := ia + ib
		if (s > ia) != (ib > 0) && ib != 0 {
			fail(2, "BadValue", "Failed to apply $inc operations to current value")
		}
		_, a32 := a.(int32)
		_, b32 := b.(int32)
		if a32 && b32 && s >= math.MinInt32 && s <= math.MaxInt32 {
			return int32(s)
		}
		return s
	}
	return toFloat(a) + toFloat(b)
}

// update applies an update to a document.
func update(d bson.D, u any, inserting bool) bson.D {
	ops, ok := u.(bson.D)
	if !ok {
		fail(9, "FailedToParse", "pipelines are not supported")
	}
	if len(ops) == 0 || !strings.HasPrefix(ops[0].Key, "$") {
		id, had := field(d, "_id")
		out := bson.D{}
		if had {
			out = append(out, bson.E{Key: "_id", Value: id})
		}
		for _, e := range ops {
			if e.Key != "_id" {
				out = append(out, e)
			}
		}
		return out
	}
	var paths []string
	for _, op := range ops {
		fields, ok := op.Value.(bson.D)
		if !ok {
			fail(9, "FailedToParse", "Modifiers operate on fields")
		}
		for _, f := range fields {
			for _, p := range paths {
				if p == f.Key || strings.HasPrefix(p, f.Key+".") || strings.HasPrefix(f.Key, p+".") {
					fail(40, "ConflictingUpdateOperators", "Updating the path '"+f.Key+"' would create a conflict at '"+p+"'")
				}
			}
			paths = append(paths, f.Key)
			switch op.Key {
			case "$set":
				if f.Key == "_id" {
					if old, had := field(d, "_id"); had && compare(old, f.Value) != 0 {
						fail(66, "ImmutableField", "Performing an update on the path '_id' would modify the immutable field '_id'")
					}
				}
				d = setPath(d, f.Key, f.Value)
			case "$setOnInsert":
				if inserting {
					d = setPath(d, f.Key, f.Value)
				}
			case "$unset":
				d = unsetPath(d, f.Key)
			case "$inc":
				if typeOrder(f.Value) != 2 {
					fail(14, "TypeMismatch", "Cannot increment with non-numeric argument")
				}
				old, had := lookup(d, f.Key)
				if !had {
					d = setPath(d, f.Key, f.Value)
				} else {
					if typeOrder(old) != 2 {
						fail(14, "TypeMismatch", "Cannot apply $inc to a value of non-numeric type")
					}
					d = setPath(d, f.Key, add(old, f.Value))
				}
			case "$max", "$min":
				old, had := lookup(d, f.Key)
				if c := compare(f.Value, old); !had || op.Key == "$max" && c > 0 || op.Key == "$min" && c < 0 {
					d = setPath(d, f.Key, f.Value)
				}
			case "$currentDate":
				fail(9, "FailedToParse", "$currentDate is not supported")
			default:
				fail(9, "FailedToParse", "Unknown modifier: "+op.Key)
			}
		}
	}
	return d
}

func project(d, p bson.D) bson.D {
	if len(p) == 0 {
		return d
	}
	yes := func(v any) bool {
		b, isB := v.(bool)
		return isB && b || !isB && toFloat(v) != 0
	}
	include, id := false, true
	for _, e := range p {
		if e.Key == "_id" {
			id = yes(e.Value)
			if len(p) == 1 {
				include = id
			}
			continue
		}
		include = yes(e.Value)
	}
	for _, e := range p {
		if e.Key != "_id" && yes(e.Value) != include {
			fail(31254, "Location31254", "Cannot do a mix of inclusion and exclusion in a projection")
		}
	}
	if !include {
		out := d
		for _, e := range p {
			out = unsetPath(out, e.Key)
		}
		return out
	}
	out := bson.D{}
	if v, ok := field(d, "_id"); ok && id {
		out = append(out, bson.E{Key: "_id", Value: v})
	}
	for _, e := range d {
		if e.Key == "_id" {
			continue
		}
		for _, f := range p {
			if f.Key == e.Key {
				out = append(out, e)
				break
			}
			if strings.HasPrefix(f.Key, e.Key+".") {
				if v, ok := lookup(d, f.Key); ok {
					out = setPath(out, f.Key, v)
				}
			}
		}
	}
	return out
}
