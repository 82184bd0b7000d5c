//go:build go1.22

package textsecure

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"net/http"
	"strings"
	"testing"
	"time"

	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/zzverif/kit"
	"github.com/signal-golang/textsecure/zzverif/ref"
)

// TestC24Expiry links devices for longer than a code is good for.
func TestC24Expiry(t *testing.T) {
	kit.Check(t, "devices were linked at generated times over a quarter of a minute", func(c *kit.Case) {
		if expired24 { // no time to look for a smaller one
			c.Bad("the new device gets an old code")
		}
		w := newWorld(c, "")
		config.ConfigFile.ProfileKey = kit.Fill(c.T, 32)
		issued := issued24x
		var put []byte
		w.extra = func(rw http.ResponseWriter, r *http.Request, body []byte) bool {
			p := r.URL.EscapedPath()
			switch {
			case r.Method == "GET" && p == "/v1/devices/provisioning/code":
				codes24++
				s := fmt.Sprintf("%06d", (codes24*7919)%1000000)
				issued[s] = time.Now()
				jsonReply(rw, 200, map[string]any{"verificationCode": s})
			case r.Method == "PUT" && strings.HasPrefix(p, "/v1/provisioning/"):
				put = body
				rw.WriteHeader(204)
			default:
				return false
			}
			return true
		}
		link := func() (string, time.Duration) {
			dev := ref.NewKeyPair()
			put = nil
			if err := AddNewLinkedDevice("b5e0bf1e-0c33-4a0e-8f5a-2c3f2f7cbb01", base64.StdEncoding.EncodeToString(append([]byte{5}, dev.Pub[:]...))); err != nil {
				c.Bad("linking: %v", err)
			}
			var in struct{ Body []byte }
			if e := json.Unmarshal(put, &in); e != nil {
				c.Bad("the provisioning request %q: %v", put, e)
			}
			m, _, e := openProvisioning(dev, in.Body)
			if e != nil {
				c.Bad("the new device can not open the provisioning message: %v", e)
			}
			code := string(m[4].Bytes)
			at, ok := issued[code]
			if !ok {
				c.Bad("the new device gets the code %q, which the server did not give", code)
			}
			return code, time.Since(at)
		}
		start := time.Now()
		gaps := []int{}
		for total := 0; total < 17000; {
			g := c.Int("pause", 1000, 6000)
			if c.Chance("long", 1, 3) {
				g = c.Int("pause", 9000, 18000)
			}
			gaps = append(gaps, g)
			total += g
		}
		link()
		for _, g := range gaps {
			time.Sleep(time.Duration(g) * time.Millisecond)
			code, age := link()
			c.Step("after %v the code %s of %v ago", time.Since(start).Round(time.Second), code, age.Round(time.Second))
			if age > 15*time.Second {
				expired24 = true
				c.Bad("the new device gets the code of %v ago", age)
			}
		}
		c.Sig(fmt.Sprint(gaps))
		c.NonTrivial()
	})
}

var (
	expired24 bool
	issued24x = map[string]time.Time{} // also of earlier cases
)
