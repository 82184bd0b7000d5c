//go:build go1.22

package textsecure

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"reflect"
	"testing"

	"github.com/signal-golang/textsecure/config"
	"github.com/signal-golang/textsecure/zzverif/kit"
)

// fillConfig gives every field a drawn value.
func fillConfig(c *kit.Case, v reflect.Value, depth int) {
	for i := 0; i < v.NumField(); i++ {
		f, name := v.Field(i), v.Type().Field(i).Name
		if !f.CanSet() || c.Chance("leave "+name, 1, 3) {
			continue
		}
		switch f.Kind() {
		case reflect.String:
			s := drawText(c.T, name)
			if c.Chance("bytes", 1, 6) {
				s = string(kit.Bytes(40).Draw(c.T, name))
			}
			f.SetString(s)
		case reflect.Bool:
			f.SetBool(true)
		case reflect.Int, reflect.Int32, reflect.Int64:
			f.SetInt(int64(c.Int(name, -1, 1<<40)))
		case reflect.Slice:
			if f.Type().Elem().Kind() == reflect.Uint8 {
				f.SetBytes(kit.Bytes(100).Draw(c.T, name))
			}
		case reflect.Struct:
			if depth < 3 {
				fillConfig(c, f, depth+1)
			}
		}
	}
}

// differConfig names the first field in which two configurations differ.
func differConfig(x, y reflect.Value) string {
	for i := 0; i < x.NumField(); i++ {
		f, g, name := x.Field(i), y.Field(i), x.Type().Field(i).Name
		if f.Kind() == reflect.Struct {
			if d := differConfig(f, g); d != "" {
				return name + "." + d
			}
			continue
		}
		if b, ok := f.Interface().([]byte); ok {
			if !bytes.Equal(b, g.Interface().([]byte)) {
				return fmt.Sprintf("%s is %x, it was %x", name, b, g.Interface())
			}
			continue
		}
		if !reflect.DeepEqual(f.Interface(), g.Interface()) {
			return fmt.Sprintf("%s is %q, it was %q", name, fmt.Sprint(f.Interface()), fmt.Sprint(g.Interface()))
		}
	}
	return ""
}

func sameConfig(a, b *config.Config) string {
	return differConfig(reflect.ValueOf(a).Elem(), reflect.ValueOf(b).Elem())
}

func TestC26Config(t *testing.T) {
	kit.Check(t, "a configuration with at least one field set was written and read back", func(c *kit.Case) {
		dir := c.Scratch()
		file := filepath.Join(dir, "config.yml")
		kept, keptFile, keptClient := config.ConfigFile, configFile, client
		defer func() { config.ConfigFile, configFile, client = kept, keptFile, keptClient }()
		if _, err := ReadConfig(file); err == nil {
			c.Bad("a configuration that was never written is read")
		}
		for n := c.Int("steps", 1, 4); n > 0; n-- {
			if c.Chance("another file", 1, 4) {
				// what is saved from now on goes to the file read last
				file = filepath.Join(dir, fmt.Sprintf("config%d.yml", n))
				c.Step("another file")
			}
			cfg := &config.Config{}
			fillConfig(c, reflect.ValueOf(cfg).Elem(), 0)
			want := *cfg
			c.Step("configuration %.300q", fmt.Sprintf("%+v", want))
			read := func(when string) {
				var got *config.Config
				var err error
				c.NoPanic("ReadConfig", func() { got, err = ReadConfig(file) })
				if err != nil {
					c.Bad("%s: reading the configuration back: %v", when, err)
				}
				if d := sameConfig(got, &want); d != "" {
					c.Bad("%s: %s", when, d)
				}
			}
			if err := WriteConfig(file, cfg); err != nil {
				c.Bad("writing a configuration: %v", err)
			}
			if d := sameConfig(cfg, &want); d != "" {
				c.Bad("writing a configuration changes it: %s", d)
			}
			read("written")
			if !reflect.DeepEqual(want, config.Config{}) {
				c.NonTrivial()
			}
			switch c.Int("then", 0, 3) {
			case 0:
				want.Name = drawText(c.T, "username")
				config.ConfigFile = cfg
				c.Step("username %q", want.Name)
				SetUsername(want.Name)
				read("a new username")
			case 1:
				// what the application has, with defaults for what it leaves open
				client = &Client{GetConfig: func() (*config.Config, error) { return cfg, nil }}
				c.Step("refresh")
				c.NoPanic("RefreshConfig", RefreshConfig)
				if want.Server == "" {
					want.Server = "https://chat.signal.org:443"
				}
				if want.VerificationType == "" {
					want.VerificationType = "sms"
				}
				if want.StorageDir == "" {
					want.StorageDir = ".storage"
				}
				read("refreshed")
			case 2:
				if err := WriteConfig(filepath.Join(dir, "away", "config.yml"), cfg); err == nil {
					c.Bad("a configuration that could not be written is reported as written")
				}
				read("after a failed write elsewhere")
			case 3:
				b, _ := os.ReadFile(file)
				b = kit.Mutator(c.T)(b)
				os.WriteFile(file, b, 0600)
				var got *config.Config
				var err error
				c.NoPanic("ReadConfig", func() { got, err = ReadConfig(file) })
				if (got == nil) != (err != nil) {
					c.Bad("reading a damaged configuration gives %v and %v", got, err)
				}
			}
		}
	})
}
