// Package cobra stands in for github.com/spf13/cobra: commands with string
// flags, run with the arguments in Args.
package cobra

import (
	"fmt"
	"strings"
)

var Args []string

type FlagSet struct {
	str   map[string]*string
	short map[string]string
}

func (f *FlagSet) add(p *string, name, short, value string) {
	if f.str == nil {
		f.str, f.short = map[string]*string{}, map[string]string{}
	}
	*p = value
	f.str[name] = p
	if short != "" {
		f.short[short] = name
	}
}
func (f *FlagSet) StringVar(p *string, name, value, usage string) { f.add(p, name, "", value) }
func (f *FlagSet) StringVarP(p *string, name, short, value, usage string) {
	f.add(p, name, short, value)
}
func (f *FlagSet) String(name, value, usage string) *string {
	p := new(string)
	f.add(p, name, "", value)
	return p
}
func (f *FlagSet) StringP(name, short, value, usage string) *string {
	p := new(string)
	f.add(p, name, short, value)
	return p
}
func (f *FlagSet) GetString(name string) (string, error) {
	if p := f.str[name]; p != nil {
		return *p, nil
	}
	return "", fmt.Errorf("no flag %q", name)
}

type Command struct {
	Use, Short, Long, Example string
	Aliases                   []string
	Run                       func(cmd *Command, args []string)
	RunE                      func(cmd *Command, args []string) error
	SilenceUsage              bool

	flags, persistent FlagSet
	subs              []*Command
	parent            *Command
}

func (c *Command) Flags() *FlagSet           { return &c.flags }
func (c *Command) PersistentFlags() *FlagSet { return &c.persistent }
func (c *Command) AddCommand(l ...*Command) {
	for _, x := range l {
		x.parent = c
		c.subs = append(c.subs, x)
	}
}
func (c *Command) Name() string { return strings.SplitN(c.Use, " ", 2)[0] }

func (c *Command) Execute() error {
	cur := c
	var rest []string
	for i := 0; i < len(Args); i++ {
		a := Args[i]
		if !strings.HasPrefix(a, "-") {
			found := false
			for _, s := range cur.subs {
				if s.Name() == a {
					cur, found = s, true
					break
				}
			}
			if !found {
				rest = append(rest, a)
			}
			continue
		}
		name, value, has := strings.Cut(strings.TrimLeft(a, "-"), "=")
		if !has {
			i++
			if i == len(Args) {
				return fmt.Errorf("flag needs an argument: %s", a)
			}
			value = Args[i]
		}
		var p *string
		for x := cur; x != nil && p == nil; x = x.parent {
			sets := []*FlagSet{&x.persistent}
			if x == cur {
				sets = append(sets, &x.flags)
			}
			for _, f := range sets {
				n := name
				if l, ok := f.short[n]; ok {
					n = l
				}
				if q, ok := f.str[n]; ok {
					p = q
				}
			}
		}
		if p == nil {
			return fmt.Errorf("unknown flag: %s", a)
		}
		*p = value
	}
	if cur.RunE != nil {
		return cur.RunE(cur, rest)
	}
	if cur.Run != nil {
		cur.Run(cur, rest)
	}
	return nil
}
