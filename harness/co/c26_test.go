//go:build go1.22

package contacts

import (
	"bytes"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"testing"

	signalservice "github.com/signal-golang/textsecure/protobuf"
	"github.com/signal-golang/textsecure/zzverif/kit"
	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"
)

var odd26 = []string{"", "a", "Family 👨‍👩‍👧", "tab\there", "line\nbreak", " padded ", "((((", "---", "a: b", "null", "~", "0x1", "1e3", "\u200fمرحبا", "e\u0301", "# no comment", "'quoted'",
	"\"q\"", "{}", "[]", "!!binary", "yes", "no", "2001-01-01", "12:30", "\u0085\u2028", "\ufeffbom", "\x7f", "a\r\nb", "\r", "|", ">", "%", "@", "`", "*a", "&a", "?", "-", "<<", "=", "\x00", "\xff\xfe", "a\xc3", "\u2029",
	"trailing \n", "\n\nx\n\n", "  leading\n more", ".nan", "0o17", "+1", "1_000", "\\n", "\U0010ffff", "\ud7ff", "\x1b[0m", "...", "--- a", "- b", "a #b", ": ", "key:"}

func text26(t *rapid.T, name string) string {
	switch rapid.IntRange(0, 3).Draw(t, name+" kind") {
	case 0:
		return kit.Pick(t, name, odd26)
	case 1:
		return rapid.StringN(0, 40, 100).Draw(t, name)
	case 2:
		return kit.Pick(t, name, odd26) + kit.Pick(t, name, odd26)
	default:
		return string(kit.Bytes(60).Draw(t, name))
	}
}

var (
	uuids26 = []string{"8f1c1e5a-3b52-4b8e-9a53-0c77f4b1a001", "8f1c1e5a-3b52-4b8e-9a53-0c77f4b1a002", "8f1c1e5a-3b52-4b8e-9a53-0c77f4b1a003", "8F1C1E5A-3B52-4B8E-9A53-0C77F4B1A001"}
	none26  = []string{"", "0", "00000000-0000-0000-0000-000000000000"}
	tels26  = []string{"+4915100000001", "+4915100000002", "+4915100000003", "015100000004"}
)

// fill26 gives every field a drawn value.
func fill26(c *kit.Case, v reflect.Value) {
	for i := 0; i < v.NumField(); i++ {
		f, name := v.Field(i), v.Type().Field(i).Name
		if !f.CanSet() || c.Chance("leave "+name, 1, 3) {
			continue
		}
		switch f.Kind() {
		case reflect.String:
			f.SetString(text26(c.T, name))
		case reflect.Bool:
			f.SetBool(true)
		case reflect.Uint32, reflect.Uint64:
			f.SetUint(kit.Pick(c.T, name, []uint64{1, 3600, math.MaxUint32}))
		case reflect.Slice:
			if f.Type().Elem().Kind() == reflect.Uint8 {
				f.SetBytes(kit.Bytes(100).Draw(c.T, name))
			}
		}
	}
}

func drawContact(c *kit.Case) Contact {
	ct := Contact{}
	fill26(c, reflect.ValueOf(&ct).Elem())
	ct.UUID = kit.Pick(c.T, "uuid", append(append([]string{}, uuids26...), none26...))
	ct.Tel = kit.Pick(c.T, "tel", tels26)
	if key26(ct) == ct.UUID && c.Chance("no number", 1, 3) {
		ct.Tel = ""
	}
	if c.Chance("verified", 1, 3) {
		ct.Verified = &signalservice.Verified{}
		if c.Chance("set", 2, 3) {
			ct.Verified = &signalservice.Verified{DestinationUuid: proto.String(text26(c.T, "destination")), IdentityKey: kit.Fill(c.T, 33),
				State: signalservice.Verified_State(c.Int("state", 0, 2)).Enum(), NullMessage: kit.Bytes(40).Draw(c.T, "null message")}
		}
	}
	return ct
}

func key26(ct Contact) string {
	for _, n := range none26 {
		if ct.UUID == n {
			return ct.Tel
		}
	}
	return ct.UUID
}

// differ names the first field in which two contacts differ.
func differ(a, b Contact) string {
	x, y := reflect.ValueOf(a), reflect.ValueOf(b)
	for i := 0; i < x.NumField(); i++ {
		f, g := x.Field(i).Interface(), y.Field(i).Interface()
		switch f := f.(type) {
		case []byte:
			if bytes.Equal(f, g.([]byte)) {
				continue
			}
		case *signalservice.Verified:
			g := g.(*signalservice.Verified)
			if (f == nil) == (g == nil) && f.GetDestinationUuid() == g.GetDestinationUuid() && bytes.Equal(f.GetIdentityKey(), g.GetIdentityKey()) &&
				f.GetState() == g.GetState() && bytes.Equal(f.GetNullMessage(), g.GetNullMessage()) {
				continue
			}
		default:
			if reflect.DeepEqual(f, g) {
				continue
			}
		}
		return fmt.Sprintf("%s is %q, it was %q", x.Type().Field(i).Name, fmt.Sprint(f), fmt.Sprint(g))
	}
	return ""
}

func TestC26Contacts(t *testing.T) {
	kit.Check(t, "a list with at least one contact was written and read back, or an update was found on disk", func(c *kit.Case) {
		file := filepath.Join(c.Scratch(), "contacts.yml")
		Contacts = map[string]Contact{}
		if l, err := ReadContacts(file); err != nil || len(l) != 0 {
			c.Bad("reading contacts that were never written: %v %v", l, err)
		}
		model := map[string]Contact{}
		compare := func(when string) {
			for k, want := range model {
				if d := differ(GetContact(k), want); d != "" {
					c.Bad("%s: contact %q: %s", when, k, d)
				}
			}
			if len(Contacts) != len(model) {
				c.Bad("%s: %d contacts are known, there are %d", when, len(Contacts), len(model))
			}
		}
		onDisk := func(when string) {
			kept := Contacts
			Contacts = map[string]Contact{}
			if _, err := ReadContacts(file); err != nil {
				c.Bad("%s: reading the contacts back: %v", when, err)
			}
			compare(when + ", read back")
			Contacts = kept
		}
		for n := c.Int("steps", 1, 6); n > 0; n-- {
			switch c.Int("op", 0, 4) {
			case 0, 1:
				var list []Contact
				for k := c.Int("contacts", 0, 4); k > 0; k-- {
					list = append(list, drawContact(c))
				}
				c.Step("write %d contacts %.200q", len(list), fmt.Sprint(list))
				if err := WriteContacts(file, list); err != nil {
					c.Bad("writing contacts: %v", err)
				}
				Contacts = map[string]Contact{}
				var got []Contact
				var err error
				c.NoPanic("ReadContacts", func() { got, err = ReadContacts(file) })
				if err != nil || len(got) != len(list) {
					c.Bad("%d contacts are read back of %d: %v", len(got), len(list), err)
				}
				model = map[string]Contact{}
				for i := range list {
					if d := differ(got[i], list[i]); d != "" {
						c.Bad("contact %d: %s", i, d)
					}
					model[key26(list[i])] = list[i]
				}
				if len(list) > 0 {
					c.NonTrivial()
				}
			case 2:
				src := kit.Pick(c.T, "src", append(append([]string{}, uuids26...), tels26[0]))
				key := kit.Fill(c.T, 32)
				ct, known := model[src]
				if !known && src == tels26[0] {
					src = uuids26[0]
					ct, known = model[src]
				}
				c.Step("profile key %x of %q (known: %v)", key[:4], src, known)
				if !known {
					ct = Contact{UUID: src, Name: src}
				}
				ct.ProfileKey = append([]byte{}, key...)
				model[src] = ct
				var err error
				c.NoPanic("UpdateProfileKey", func() { err = UpdateProfileKey(src, key) })
				if err != nil {
					c.Bad("updating a profile key: %v", err)
				}
				onDisk("a new profile key")
				c.NonTrivial()
			case 3:
				ct := drawContact(c)
				d := &signalservice.ContactDetails{Number: proto.String(ct.Tel), Uuid: proto.String(ct.UUID), Name: proto.String(ct.Name), Color: proto.String(ct.Color),
					Verified: ct.Verified, ProfileKey: ct.ProfileKey, Blocked: proto.Bool(ct.Blocked), ExpireTimer: proto.Uint32(ct.ExpireTimer),
					InboxPosition: proto.Uint32(ct.InboxPosition), Archived: proto.Bool(ct.Archived)}
				c.Step("details of %q %q", ct.UUID, ct.Tel)
				var err error
				c.NoPanic("updateContact", func() { err = updateContact(d) })
				if err != nil {
					c.Bad("updating a contact: %v", err)
				}
				// what the details do not tell about is not decided here
				got := GetContact(key26(ct))
				want := got
				want.Tel, want.UUID, want.Name, want.Color, want.Verified, want.ProfileKey = ct.Tel, ct.UUID, ct.Name, ct.Color, ct.Verified, ct.ProfileKey
				want.Blocked, want.ExpireTimer, want.InboxPosition, want.Archived = ct.Blocked, ct.ExpireTimer, ct.InboxPosition, ct.Archived
				model[key26(ct)] = want
				onDisk("new details")
				c.NonTrivial()
			case 4:
				// a file that can not be written
				bad := filepath.Join(filepath.Dir(file), "away", "contacts.yml")
				c.Step("write to a directory that is not there")
				if err := WriteContacts(bad, []Contact{{Tel: tels26[0]}}); err == nil {
					c.Bad("contacts that could not be written are reported as written")
				}
				kept, _ := os.ReadFile(file)
				os.Remove(file)
				os.Mkdir(file, 0700)
				if err := WriteContactsToPath(); err == nil {
					c.Bad("contacts that could not be written are reported as written")
				}
				os.Remove(file)
				if kept != nil {
					os.WriteFile(file, kept, 0600)
				}
			}
			compare("now")
		}
	})
}

func TestC26Garbage(t *testing.T) {
	kit.Check(t, "a damaged contact file was read with an error", func(c *kit.Case) {
		file := filepath.Join(c.Scratch(), "contacts.yml")
		Contacts = map[string]Contact{}
		var list []Contact
		for k := c.Int("contacts", 0, 3); k > 0; k-- {
			list = append(list, drawContact(c))
		}
		if err := WriteContacts(file, list); err != nil {
			c.Bad("%v", err)
		}
		b, _ := os.ReadFile(file)
		for k := c.Int("damages", 1, 3); k > 0; k-- {
			b = kit.Mutator(c.T)(b)
		}
		os.WriteFile(file, b, 0600)
		var err error
		c.NoPanic("ReadContacts", func() { _, err = ReadContacts(file) })
		c.Step("%d bytes: %v", len(b), err != nil)
		if err != nil {
			c.NonTrivial()
		}
	})
}
