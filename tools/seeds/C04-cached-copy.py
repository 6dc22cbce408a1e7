property = "C04"
edits = [("core/util.go", "\tif resp.StatusCode != http.StatusOK {\n\t\tresp.Body.Close()\n", "\tif resp.StatusCode >= http.StatusBadRequest {\n\t\tresp.Body.Close()\n")]
needs = "a server that answers with a status between 201 and 399 that is no redirect, such as 203, 206 or 300"
breaks = "a partial or moved document is evaluated"
pkg = "core"
test = r'''
package core

import (
	"net/http"
	"net/http/httptest"
	"testing"
)

func TestDemo(t *testing.T) {
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.WriteHeader(http.StatusPartialContent)
		w.Write([]byte("hal"))
	}))
	defer srv.Close()
	if _, err := CallEngineByPath(srv.URL+"/a.txt", "", NewEnv(), nil); err == nil {
		t.Error("a partial response was used")
	}
}
'''
