property = "C05"
edits = [("core/util.go", "\tif resp.StatusCode != http.StatusOK {\n\t\tresp.Body.Close()\n", "\tif resp.StatusCode != http.StatusOK {\n")]
needs = "a response with another status than 200"
breaks = "its body is never closed"
pkg = "core"
test = r'''
package core

import (
	"io"
	"net/http"
	"strings"
	"testing"
)

type demoBody struct {
	io.Reader
	closed *int
}

func (b demoBody) Close() error { *b.closed++; return nil }

type demoTransport struct{ closed *int }

func (d demoTransport) RoundTrip(r *http.Request) (*http.Response, error) {
	return &http.Response{StatusCode: 404, Status: "404", Proto: "HTTP/1.1", Header: http.Header{}, Request: r, Body: demoBody{strings.NewReader("x"), d.closed}}, nil
}

func TestDemo(t *testing.T) {
	closed := 0
	old := http.DefaultTransport
	http.DefaultTransport = demoTransport{&closed}
	defer func() { http.DefaultTransport = old }()
	_, err := CallEngineByPath("http://host.invalid/a.txt", "", NewEnv(), nil)
	if err == nil || closed == 0 {
		t.Error(err, closed)
	}
}
'''
