//go:build go1.21

// Package scanfix runs the real scanner (the module's public entry point) on a
// generated program.
package scanfix

import (
	"context"
	"encoding/json"
	"strings"

	"github.com/buypal/oapi-go"
	"github.com/buypal/oapi-go/internal/verifmc/mclib"
)

// Result of one scan.
type Result struct {
	Doc   map[string]interface{} // document, nil when the scan failed
	JSON  string
	Err   error
	Panic string // non-empty when the scan panicked
}

// Scan runs oapi.Scan and renders the document as JSON.
func Scan(dir string, opts ...oapi.Option) (r Result) {
	pv, stack := mclib.Try(func() {
		var o oapi.OAPI
		o, r.Err = oapi.Scan(context.Background(), append([]oapi.Option{oapi.WithDir(dir)}, opts...)...)
		if r.Err != nil {
			return
		}
		var b []byte
		b, r.Err = oapi.Format("json", o)
		if r.Err != nil {
			return
		}
		r.JSON = string(b)
		if err := json.Unmarshal(b, &r.Doc); err != nil {
			r.Panic = "formatted document is not a JSON object: " + err.Error() + ": " + r.JSON
		}
	})
	if pv != nil {
		r.Panic = strings.TrimSpace(strings.Join([]string{sprint(pv), stack}, "\n"))
	}
	return
}

func sprint(v interface{}) string {
	if e, ok := v.(error); ok {
		return e.Error()
	}
	if s, ok := v.(string); ok {
		return s
	}
	b, _ := json.Marshal(v)
	return string(b)
}
