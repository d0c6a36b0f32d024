package verifos

import (
	real_ "os"
	"sort"
)

// The environment: a process may be given one by Proc.Ask, which is called with the name of
// each variable the process looks at. Otherwise it is the checker's.

func ask(key string) (string, bool) {
	if p := cur; p != nil && p.Ask != nil && !p.Dead {
		p.mu.Lock()
		defer p.mu.Unlock()
		if p.env == nil {
			p.env = map[string]*string{}
		}
		v, seen := p.env[key]
		if !seen {
			if s, set := p.Ask(key); set {
				v = &s
			}
			p.env[key] = v
		}
		if v == nil {
			return "", false
		}
		return *v, true
	}
	return real_.LookupEnv(key)
}

func Getenv(key string) string {
	v, _ := ask(key)
	return v
}

func LookupEnv(key string) (string, bool) { return ask(key) }

func ExpandEnv(s string) string { return real_.Expand(s, Getenv) }

func Setenv(key, value string) error {
	if p := cur; p != nil && p.Ask != nil {
		ask(key)
		p.mu.Lock()
		defer p.mu.Unlock()
		p.env[key] = &value
		return nil
	}
	return real_.Setenv(key, value)
}

func Unsetenv(key string) error {
	if p := cur; p != nil && p.Ask != nil {
		ask(key)
		p.mu.Lock()
		defer p.mu.Unlock()
		p.env[key] = nil
		return nil
	}
	return real_.Unsetenv(key)
}

// Environ lists some usual variables and those looked at before.
func Environ() (r []string) {
	p := cur
	if p == nil || p.Ask == nil {
		return real_.Environ()
	}
	for _, k := range []string{"COLUMNS", "HOME", "LANG", "LC_ALL", "NEOJHAT_OPTS", "NO_COLOR", "PATH", "TERM", "TZ"} {
		ask(k)
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	for k, v := range p.env {
		if v != nil {
			r = append(r, k+"="+*v)
		}
	}
	sort.Strings(r)
	return
}

// Getpid differs between processes that live at the same time.
func Getpid() int {
	p := cur
	if p == nil {
		return real_.Getpid()
	}
	p.FS.mu.Lock()
	defer p.FS.mu.Unlock()
	if p.pid == 0 {
		p.FS.tmp++
		p.pid = 5000 + p.FS.tmp
	}
	return p.pid
}

func Hostname() (string, error) {
	if v, set := ask("HOSTNAME"); set {
		return v, nil
	}
	return real_.Hostname()
}

func UserHomeDir() (string, error) {
	if v, set := ask("HOME"); set && v != "" {
		return v, nil
	}
	if cur != nil && cur.Ask != nil {
		return "", real_.ErrNotExist
	}
	return real_.UserHomeDir()
}
