// Package dir drives database-backed directories: seeding, snapshots, requests and comparison with the reference tree.
package dir

import (
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"os"
	"strings"

	"github.com/go-ldap/ldap/v3"
	"github.com/libregraph/idm/pkg/ldbbolt"
	"github.com/libregraph/idm/server"
	bolt "go.etcd.io/bbolt"

	"idmverif/lib/ber"
	"idmverif/lib/model"
	"idmverif/lib/wire"
)

// The usual names.
const (
	Base    = "dc=x"
	AdminDN = "cn=admin,dc=x"
	AdminPW = "adminpw"
)

// E makes an entry. attrs are name, value pairs; repeated names give several values.
func E(dn string, attrs ...string) SeedEntry {
	e := SeedEntry{DN: dn}
	for i := 0; i+1 < len(attrs); i += 2 {
		found := false
		for k := range e.Attrs {
			if e.Attrs[k].Name == attrs[i] {
				e.Attrs[k].Values = append(e.Attrs[k].Values, attrs[i+1])
				found = true
			}
		}
		if !found {
			e.Attrs = append(e.Attrs, model.Attr{Name: attrs[i], Values: []string{attrs[i+1]}})
		}
	}
	return e
}

// SeedEntry is an initial entry.
type SeedEntry struct {
	DN    string
	Attrs []model.Attr
}

// Standard is base plus administrator.
func Standard() []SeedEntry {
	return []SeedEntry{
		E(Base, "objectClass", "domain", "dc", "x"),
		E(AdminDN, "objectClass", "person", "cn", "admin", "sn", "admin", "userPassword", AdminPW),
	}
}

// Seed creates a database file with the given entries and returns its content.
func Seed(path, base string, entries []SeedEntry) ([]byte, error) {
	os.Remove(path)
	bdb := &ldbbolt.LdbBolt{}
	if err := bdb.Configure(wire.Logger(), base, path, nil); err != nil {
		return nil, err
	}
	if err := bdb.Initialize(); err != nil {
		return nil, err
	}
	for _, e := range entries {
		m := map[string][]string{}
		for _, a := range e.Attrs {
			m[a.Name] = a.Values
		}
		if err := bdb.EntryPut(ldap.NewEntry(e.DN, m)); err != nil {
			bdb.Close()
			return nil, fmt.Errorf("seed %s: %w", e.DN, err)
		}
	}
	bdb.Close()
	return os.ReadFile(path)
}

// Age sets the sequence of every bucket that has one.
func Age(path string, seq uint64) error {
	db, err := bolt.Open(path, 0o600, nil)
	if err != nil {
		return err
	}
	defer db.Close()
	return db.Update(func(tx *bolt.Tx) error {
		return tx.ForEach(func(_ []byte, b *bolt.Bucket) error {
			if s := b.Sequence(); s != 0 && s < seq {
				return b.SetSequence(seq)
			}
			return nil
		})
	})
}

// Tree builds the reference tree of the seed.
func Tree(base string, entries []SeedEntry) *model.Tree {
	t := model.NewTree(base)
	for _, e := range entries {
		if !t.Add(e.DN, e.Attrs) {
			panic("seed not accepted by the model: " + e.DN)
		}
	}
	return t
}

// Dir is a running directory.
type Dir struct {
	Path string
	Srv  *wire.Srv
	Adm  *wire.Client
}

// Config is the default configuration on a file.
func Config(path string) server.Config {
	return server.Config{LDAPHandler: "boltdb", LDAPBaseDN: Base, LDAPAdminDN: AdminDN, BoltDBFile: path}
}

// Open starts a server on the given database content with a bound administrator connection.
func Open(path string, content []byte) (*Dir, error) {
	if content != nil {
		if err := os.WriteFile(path, content, 0o600); err != nil {
			return nil, err
		}
	}
	s, err := wire.Start(Config(path))
	if err != nil {
		return nil, fmt.Errorf("start: %w", err)
	}
	d := &Dir{Path: path, Srv: s}
	d.Adm, err = d.Admin()
	if err != nil {
		s.Stop()
		return nil, err
	}
	return d, nil
}

// Admin makes another administrator connection.
func (d *Dir) Admin() (*wire.Client, error) {
	c := d.Srv.Dial()
	if r := c.Bind(AdminDN, AdminPW); r.Code != 0 {
		return nil, fmt.Errorf("administrator bind failed: %d %s", r.Code, r.Proto)
	}
	return c, nil
}

// Close stops it.
func (d *Dir) Close() error { return d.Srv.Stop() }

// Bytes is the current file content.
func (d *Dir) Bytes() []byte {
	b, _ := os.ReadFile(d.Path)
	return b
}

// Dump hashes all buckets, keys, values and sequences of the open database.
func (d *Dir) Dump() string {
	db := wire.BoltDB(d.Path)
	if db == nil {
		return ""
	}
	h := sha256.New()
	db.View(func(tx *bolt.Tx) error {
		return tx.ForEach(func(n []byte, b *bolt.Bucket) error {
			fmt.Fprintf(h, "B%q %d\n", n, b.Sequence())
			return b.ForEach(func(k, v []byte) error {
				fmt.Fprintf(h, "%q=%q\n", k, v)
				return nil
			})
		})
	})
	return hex.EncodeToString(h.Sum(nil)[:16])
}

// All is the filter matching every entry.
func All() *model.Filter { return &model.Filter{Kind: model.FPresent, Attr: "objectClass"} }

// Content returns the canonical whole directory as seen by an administrator.
func (d *Dir) Content() (string, error) { return ContentOf(d.Adm, Base) }

// ContentOf reads the whole directory through c.
func ContentOf(c *wire.Client, base string) (string, error) {
	r := c.Search(base, model.ScopeSub, wire.FPresent("objectClass"))
	if r.Code != 0 {
		return "", fmt.Errorf("search of the whole tree: code %d %s", r.Code, r.Proto)
	}
	return model.CanonWire(HidePW(r.Entries)), nil
}

// HidePW replaces generated password hashes, which are random, by a marker.
func HidePW(es []wire.Entry) []wire.Entry {
	for i := range es {
		for k := range es[i].Attrs {
			a := &es[i].Attrs[k]
			if strings.EqualFold(a.Name, "userPassword") {
				for j, v := range a.Values {
					if strings.HasPrefix(strings.ToUpper(v), "{ARGON2}") {
						a.Values[j] = "{hash}"
					}
				}
			}
		}
	}
	return es
}

// Op is a write request.
type Op struct {
	K       string         `json:"k"` // add del mod ren pw
	DN      string         `json:"dn"`
	Attrs   []model.Attr   `json:"attrs,omitempty"`
	Changes []model.Change `json:"changes,omitempty"`
	NewRDN  string         `json:"newrdn,omitempty"`
	DelOld  bool           `json:"delold,omitempty"`
	PW      string         `json:"pw,omitempty"`
}

func (o Op) String() string {
	switch o.K {
	case "add":
		return "add " + o.DN
	case "del":
		return "delete " + o.DN
	case "ren":
		return fmt.Sprintf("rename %s to %s (delete old: %v)", o.DN, o.NewRDN, o.DelOld)
	case "pw":
		return "set password of " + o.DN
	}
	return fmt.Sprintf("modify %s %v", o.DN, o.Changes)
}

// Do sends the request.
func (o Op) Do(c *wire.Client) wire.Result { return c.Do(o.Node()) }

// Node encodes the request.
func (o Op) Node() *ber.Node {
	switch o.K {
	case "add":
		return wire.AddOp(o.DN, model.ToWire(o.Attrs))
	case "del":
		return wire.DelOp(o.DN)
	case "mod":
		return wire.ModifyOp(o.DN, model.ToChanges(o.Changes))
	case "ren":
		return wire.ModDNOp(o.DN, o.NewRDN, o.DelOld, nil)
	case "pw":
		return wire.PwModOp(&o.DN, nil, &o.PW, false)
	}
	panic("op kind " + o.K)
}

// Apply applies the request to the reference tree; t is changed only if it is accepted.
func (o Op) Apply(t *model.Tree) bool {
	switch o.K {
	case "add":
		return t.Add(o.DN, o.Attrs)
	case "del":
		return t.Delete(o.DN)
	case "mod":
		return t.Modify(o.DN, o.Changes)
	case "ren":
		return t.Rename(o.DN, o.NewRDN, o.DelOld)
	case "pw":
		return t.Modify(o.DN, []model.Change{{Op: model.Replace, Name: "userPassword", Vals: []string{"{hash}"}}})
	}
	panic("op kind " + o.K)
}
