package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"github.com/libregraph/idm/server"

	"idmverif/lib/dir"
	"idmverif/lib/run"
	"idmverif/lib/wire"
)

func readFile(p string) []byte {
	b, _ := os.ReadFile(p)
	return b
}

// decode reads a replay case.
func decode[T any](c *run.Ctx, k json.RawMessage) (v T, ok bool) {
	if err := json.Unmarshal(k, &v); err != nil {
		c.Errorf("case: %v", err)
		return v, false
	}
	return v, true
}

// replayOf makes a Replay function out of a case judge.
func replayOf[T any](judge func(c *run.Ctx, w int, k T) string) func(c *run.Ctx, k json.RawMessage) string {
	return func(c *run.Ctx, k json.RawMessage) string {
		v, ok := decode[T](c, k)
		if !ok {
			return ""
		}
		return judge(c, 0, v)
	}
}

func keyOf(v any) string {
	b, _ := json.Marshal(v)
	return string(b)
}

// usersSeed has users with clear-text passwords.
func usersSeed() []dir.SeedEntry {
	return append(dir.Standard(),
		dir.E("ou=p,dc=x", "objectClass", "organizationalUnit", "ou", "p"),
		dir.E("cn=a,ou=p,dc=x", "objectClass", "person", "cn", "a", "sn", "A", "userPassword", "pwa"),
		dir.E("cn=b,ou=p,dc=x", "objectClass", "person", "cn", "b", "sn", "B", "userPassword", "pwb"),
		dir.E("cn=admin,ou=p,dc=x", "objectClass", "person", "cn", "admin", "userPassword", "pwc"),
		dir.E("cn=adminx,dc=x", "objectClass", "person", "cn", "adminx", "userPassword", "pwd"),
		dir.E("cn=nopw,dc=x", "objectClass", "person", "cn", "nopw"),
		dir.E("cn=k,cn=admin,dc=x", "objectClass", "person", "cn", "k", "userPassword", "pwk"),
		dir.E("xcn=admin,dc=x", "objectClass", "person", "xcn", "admin", "userPassword", "pwx"),
	)
}

func writeBytes(p string, b []byte) error { return os.WriteFile(p, b, 0o600) }

// someControls are sets of request controls that change nothing: none of them is critical.
var someControls = [][]wire.Control{
	nil,
	{{OID: "1.2.3.4"}},
	{{OID: "1.2.3.4", HasValue: true, Value: []byte("x")}, {OID: "2.16.840.1.113730.3.4.2"}, {OID: "1.2.3.4.5"}},
	{{OID: "2.16.840.1.113730.3.4.18", HasValue: true, Value: []byte("dn:" + dir.AdminDN)}},
}

// Time limits that are never reached.
var someTimes = []int{0, 10, 3600, 1<<31 - 1}

func writeFile(p, s string) { os.WriteFile(p, []byte(s), 0o600) }

// ldifText renders entries as LDIF (values must be plain text).
func ldifText(entries []dir.SeedEntry) string {
	var b strings.Builder
	for _, e := range entries {
		fmt.Fprintf(&b, "dn: %s\n", e.DN)
		for _, a := range e.Attrs {
			for _, v := range a.Values {
				fmt.Fprintf(&b, "%s: %s\n", a.Name, v)
			}
		}
		b.WriteString("\n")
	}
	return b.String()
}

// ldifConfig is the default configuration of an LDIF-backed server in d.
func ldifConfig(d, main, svc string) server.Config {
	os.MkdirAll(d, 0o755)
	cfg := server.Config{LDAPHandler: "ldif", LDAPBaseDN: dir.Base, LDAPAdminDN: dir.AdminDN, LDIFMain: filepath.Join(d, "main.ldif")}
	writeFile(cfg.LDIFMain, main)
	if svc != "" {
		cfg.LDIFConfig = filepath.Join(d, "config.ldif")
		writeFile(cfg.LDIFConfig, svc)
	}
	return cfg
}

// bad renders an unusable answer, "" if the answer is usable.
func bad(r wire.Result) string {
	if r.Code >= 0 {
		return ""
	}
	switch r.Code {
	case wire.CodeClosed:
		return "connection closed without an answer " + r.Proto
	case wire.CodeTimeout:
		return "no answer"
	}
	return "wrong answer: " + r.Proto
}

func ptr[T any](v T) *T { return &v }
