// Package gentypes has types that get the methods the code generator of the
// tree under test writes for them (build.sh runs it). Without these methods
// reflection does the same.
package gentypes

// Hooks called by the custom methods, set by the harness.
var (
	Encode func(kind string) error
	Decode func(kind string, data []byte) error
)

// J encodes and decodes itself as JSON.
type J struct{ Text string }

// MarshalJSON implements json.Marshaler.
func (j J) MarshalJSON() ([]byte, error) {
	b := []byte(j.Text)
	if err := Encode("gentypes.J.MarshalJSON"); err != nil {
		return b[:len(b)/2], err
	}
	return b, nil
}

// T encodes itself as text.
type T struct{ Text string }

// MarshalText implements encoding.TextMarshaler.
func (t T) MarshalText() ([]byte, error) {
	b := []byte(t.Text)
	if err := Encode("gentypes.T.MarshalText"); err != nil {
		return b, err
	}
	return b, nil
}

// P appends itself.
type P struct{ Text string }

// AppendJSON implements njson.Appender.
func (p P) AppendJSON(b []byte) ([]byte, error) {
	b = append(b, p.Text[:len(p.Text)/2]...)
	if err := Encode("gentypes.P.AppendJSON"); err != nil {
		return b, err
	}
	return append(b, p.Text[len(p.Text)/2:]...), nil
}

// V encodes itself through its pointer.
type V struct{ Text string }

// MarshalJSON implements json.Marshaler.
func (v *V) MarshalJSON() ([]byte, error) {
	b := []byte(v.Text)
	if err := Encode("gentypes.(*V).MarshalJSON"); err != nil {
		return b, err
	}
	return b, nil
}

// W encodes itself as text through its pointer.
type W struct{ Text string }

// MarshalText implements encoding.TextMarshaler.
func (w *W) MarshalText() ([]byte, error) {
	b := []byte(w.Text)
	if err := Encode("gentypes.(*W).MarshalText"); err != nil {
		return b[:len(b)/2], err
	}
	return b, nil
}

// InE is nested.
type InE struct {
	T T `json:"t"`
	J J `json:"j"`
}

// BoxE is encoded by a generated method.
type BoxE struct {
	A  int            `json:"a"`
	J  J              `json:"j"`
	T  T              `json:"t"`
	P  P              `json:"p"`
	LJ []J            `json:"lj"`
	LT []T            `json:"lt"`
	LP [][]P          `json:"lp"`
	I  InE            `json:"i"`
	PI *InE           `json:"pi"`
	LI []InE          `json:"li"`
	M  map[string]P   `json:"m"`
	MT map[string][]T `json:"mt"`
	V  V              `json:"v"`
	LW []W            `json:"lw"`
	N  []*J           `json:"n"`
	Z  string         `json:"z"`
	F  float64        `json:"f,omitempty"`
}

// DJ decodes itself from JSON.
type DJ struct{ n int }

// UnmarshalJSON implements json.Unmarshaler.
func (j *DJ) UnmarshalJSON(b []byte) error { j.n++; return Decode("json", b) }

// DT decodes itself from text.
type DT struct{ n int }

// UnmarshalText implements encoding.TextUnmarshaler.
func (t *DT) UnmarshalText(b []byte) error { t.n++; return Decode("text", b) }

// InD is nested.
type InD struct {
	T DT `json:"t"`
	J DJ `json:"j"`
}

// BoxD is decoded by a generated method.
type BoxD struct {
	A  int           `json:"a"`
	J  DJ            `json:"j"`
	T  DT            `json:"t"`
	LJ []DJ          `json:"lj"`
	LT []*DT         `json:"lt"`
	MJ map[string]DJ `json:"mj"`
	PJ *DJ           `json:"pj"`
	I  InD           `json:"i"`
	PI *InD          `json:"pi"`
	LI []InD         `json:"li"`
	Z  string        `json:"z"`
}

// InL is nested.
type InL struct {
	N int    `json:"n"`
	T string `json:"t"`
}

// Line is decoded by a generated method, line after line into the same value.
type Line struct {
	ID int            `json:"id"`
	S  string         `json:"s"`
	L  []string       `json:"l"`
	N  []int          `json:"n"`
	NN [][]int        `json:"nn"`
	I  InL            `json:"i"`
	LI []InL          `json:"li"`
	P  *InL           `json:"p"`
	LP []*InL         `json:"lp"`
	M  map[string]int `json:"m"`
	MI map[string]InL `json:"mi"`
	S8 int8           `json:"s8"`
	U  uint32         `json:"u"`
	F4 float32        `json:"f4"`
	B  bool           `json:"b"`
	F  float64        `json:"f"`
}
