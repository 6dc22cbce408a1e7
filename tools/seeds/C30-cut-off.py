property = "C30"
edits = [("core/schema.go", "\t\tbody, err := io.ReadAll(resp.Body)\n\t\tif err != nil {\n", "\t\tbody, err := io.ReadAll(resp.Body)\n\t\tif err != nil && len(body) == 0 {\n")]
needs = "a download that breaks off after a complete JSON value"
breaks = "what arrived is cached though the download failed"
pkg = "core"
test = r"""
package core

import (
	"net/http"
	"net/http/httptest"
	"path/filepath"
	"testing"
)

func TestDemo(t *testing.T) {
	home := t.TempDir()
	t.Setenv("HOME", home)
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.Header().Set("Content-Length", "5000")
		w.Write([]byte(`{"type": "object"}`))
	}))
	defer srv.Close()
	_, err := LoadSchemaFromURL(srv.URL + "/thing.json")
	found, _ := filepath.Glob(filepath.Join(home, ".cache/yisp/schemas/*"))
	if err == nil || len(found) > 0 {
		t.Errorf("error %v, cached %v", err, found)
	}
}
"""
