property = "C25"
edits = [("cmd/build.go", "AllowUntypedManifest: allowUntypedManifest,", "AllowUntypedManifest: allowUntypedManifest || disableTypeCheck,")]
needs = "a manifest of an unknown kind with type checks disabled"
breaks = "disabling type checks also allows untyped manifests"
files = {"docs/main.yisp": """
apiVersion: example.com/v1
kind: Unknown
"""}
args = "--disable-type-check main.yisp"
status = 1
