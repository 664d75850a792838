package astra

import (
	vc "github.com/ls6-events/astra/zzvc"
)

// zzDefaults is the configuration after validation: host and, when valid, base path have their defaults.
func zzDefaults(c Config) Config {
	if c.Host == "" {
		c.Host = "localhost"
	}
	if c.Port != 0 && c.BasePath == "" {
		c.BasePath = "/"
	}
	return c
}

//vc:contract (*Config).Validate
//vc:prop C12
func zzValidate(c *Config) {
	vc.Requires(c != nil)
	vc.Modifies(c)
	c0 := *c
	err := c.Validate()
	vc.Ensures("fails exactly without a port", (err != nil) == (c0.Port == 0))
	vc.Ensures("port error", c0.Port != 0 || err == ErrConfigPortRequired)
	vc.Ensures("defaults and nothing else", *c == zzDefaults(c0))
}

//vc:contract NewConfigBuilder
//vc:prop C12
func zzNewConfigBuilder() {
	b := NewConfigBuilder()
	vc.Ensures("empty", b != nil && b.config != nil && *b.config == Config{})
	vc.Ensures("fresh", vc.Fresh(b) && vc.Fresh(b.config))
}

//vc:contract (*ConfigBuilder).SetTitle
//vc:prop C12
func zzSetTitle(c *ConfigBuilder, v string) {
	vc.Requires(c != nil && c.config != nil)
	vc.Modifies(c.config)
	want := *c.config
	want.Title = v
	r := c.SetTitle(v)
	vc.Ensures("sets its field only", *c.config == want)
	vc.Ensures("same builder", r == c)
}

//vc:contract (*ConfigBuilder).SetDescription
//vc:prop C12
func zzSetDescription(c *ConfigBuilder, v string) {
	vc.Requires(c != nil && c.config != nil)
	vc.Modifies(c.config)
	want := *c.config
	want.Description = v
	r := c.SetDescription(v)
	vc.Ensures("sets its field only", *c.config == want)
	vc.Ensures("same builder", r == c)
}

//vc:contract (*ConfigBuilder).SetVersion
//vc:prop C12
func zzSetVersion(c *ConfigBuilder, v string) {
	vc.Requires(c != nil && c.config != nil)
	vc.Modifies(c.config)
	want := *c.config
	want.Version = v
	r := c.SetVersion(v)
	vc.Ensures("sets its field only", *c.config == want)
	vc.Ensures("same builder", r == c)
}

//vc:contract (*ConfigBuilder).SetContact
//vc:prop C12
func zzSetContact(c *ConfigBuilder, v Contact) {
	vc.Requires(c != nil && c.config != nil)
	vc.Modifies(c.config)
	want := *c.config
	want.Contact = v
	r := c.SetContact(v)
	vc.Ensures("sets its field only", *c.config == want)
	vc.Ensures("same builder", r == c)
}

//vc:contract (*ConfigBuilder).SetLicense
//vc:prop C12
func zzSetLicense(c *ConfigBuilder, v License) {
	vc.Requires(c != nil && c.config != nil)
	vc.Modifies(c.config)
	want := *c.config
	want.License = v
	r := c.SetLicense(v)
	vc.Ensures("sets its field only", *c.config == want)
	vc.Ensures("same builder", r == c)
}

//vc:contract (*ConfigBuilder).SetSecure
//vc:prop C12
func zzSetSecure(c *ConfigBuilder, v bool) {
	vc.Requires(c != nil && c.config != nil)
	vc.Modifies(c.config)
	want := *c.config
	want.Secure = v
	r := c.SetSecure(v)
	vc.Ensures("sets its field only", *c.config == want)
	vc.Ensures("same builder", r == c)
}

//vc:contract (*ConfigBuilder).SetHost
//vc:prop C12
func zzSetHost(c *ConfigBuilder, v string) {
	vc.Requires(c != nil && c.config != nil)
	vc.Modifies(c.config)
	want := *c.config
	want.Host = v
	r := c.SetHost(v)
	vc.Ensures("sets its field only", *c.config == want)
	vc.Ensures("same builder", r == c)
}

//vc:contract (*ConfigBuilder).SetBasePath
//vc:prop C12
func zzSetBasePath(c *ConfigBuilder, v string) {
	vc.Requires(c != nil && c.config != nil)
	vc.Modifies(c.config)
	want := *c.config
	want.BasePath = v
	r := c.SetBasePath(v)
	vc.Ensures("sets its field only", *c.config == want)
	vc.Ensures("same builder", r == c)
}

//vc:contract (*ConfigBuilder).SetPort
//vc:prop C12
func zzSetPort(c *ConfigBuilder, v int) {
	vc.Requires(c != nil && c.config != nil)
	vc.Modifies(c.config)
	want := *c.config
	want.Port = v
	r := c.SetPort(v)
	vc.Ensures("sets its field only", *c.config == want)
	vc.Ensures("same builder", r == c)
}

//vc:contract (*ConfigBuilder).Build
//vc:prop C12
func zzBuild(c *ConfigBuilder) {
	vc.Requires(c != nil && c.config != nil)
	vc.Modifies(c.config)
	c0 := *c.config
	r, err := c.Build()
	vc.Ensures("fails exactly without a port", (err != nil) == (c0.Port == 0))
	vc.Ensures("port error and no configuration", c0.Port != 0 || (err == ErrConfigPortRequired && r == nil))
	vc.Ensures("configuration as set, with defaults", c0.Port == 0 || (r != nil && *r == zzDefaults(c0)))
}

//vc:contract (*Service).SetConfig
//vc:prop C12
func zzSetConfig(s *Service, c *Config) {
	vc.Requires(s != nil)
	vc.Modifies(s)
	want := *s
	want.Config = c
	r := s.SetConfig(c)
	vc.Ensures("configuration set, nothing else", vc.Same(*s, want))
	vc.Ensures("same service", r == s)
}

//vc:lemma
//vc:prop C12
func zzWithConfig(s *Service, c *Config) {
	vc.Requires(s != nil)
	vc.Modifies(s)
	want := *s
	want.Config = c
	WithConfig(c)(s)
	vc.Ensures("configuration set, nothing else", vc.Same(*s, want))
}
