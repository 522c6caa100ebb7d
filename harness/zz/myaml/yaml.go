// Package myaml is the model of YAML decoding: a document is a token that
// stands for the decoded values prepared by the harness.
package myaml

import (
	"errors"

	"github.com/BTBurke/monny/zzverif/sym"
)

var docs []map[string]interface{}

// Doc is a document that decodes to m.
func Doc(m map[string]interface{}) []byte {
	docs = append(docs, m)
	return []byte{0xf1, byte(len(docs) - 1)}
}

//sym:model github.com/go-yaml/yaml.Unmarshal
func Unmarshal(in []byte, out interface{}) error {
	if len(in) != 2 || in[0] != 0xf1 {
		return errors.New("yaml: invalid document")
	}
	d := docs[in[1]]
	switch m := out.(type) {
	case *map[string]interface{}:
		if *m == nil {
			*m = map[string]interface{}{}
		}
		for k, v := range d {
			(*m)[k] = v
		}
	case map[string]interface{}:
		for k, v := range d {
			m[k] = v
		}
	case *map[interface{}]interface{}:
		if *m == nil {
			*m = map[interface{}]interface{}{}
		}
		for k, v := range d {
			(*m)[k] = v
		}
	default:
		sym.Cut("YAML decoded into another type")
	}
	return nil
}

//sym:model github.com/go-yaml/yaml.UnmarshalStrict
func UnmarshalStrict(in []byte, out interface{}) error { return Unmarshal(in, out) }
