// Package cli is a small stand-in for github.com/codegangsta/cli.
package cli

import (
	"fmt"
	"os"
	"strings"
)

type Flag interface{ GetName() string }

type StringFlag struct{ Name, Value, Usage, EnvVar string }

func (f StringFlag) GetName() string { return f.Name }

type Command struct {
	Name, ShortName, Usage string
	Aliases                []string
	Action                 interface{}
	Flags                  []Flag
}

type Context struct {
	App     *App
	Command Command
	vals    map[string]string
}

func (c *Context) String(name string) string { return c.vals[name] }
func (c *Context) IsSet(name string) bool    { _, ok := c.vals[name]; return ok }

type App struct {
	Name, Usage, Version string
	Commands             []Command
	Flags                []Flag
	Action               interface{}
}

func NewApp() *App { return &App{} }

type ExitCoder interface {
	error
	ExitCode() int
}

type exitErr struct {
	msg  interface{}
	code int
}

func (e exitErr) Error() string { return fmt.Sprint(e.msg) }
func (e exitErr) ExitCode() int { return e.code }

func NewExitError(message interface{}, code int) ExitCoder { return exitErr{message, code} }
func Exit(message interface{}, code int) ExitCoder         { return exitErr{message, code} }

func call(action interface{}, c *Context) error {
	var err error
	switch f := action.(type) {
	case func(*Context) error:
		err = f(c)
	case func(*Context):
		f(c)
	}
	if e, ok := err.(ExitCoder); ok {
		fmt.Fprintln(os.Stderr, e.Error())
		os.Exit(e.ExitCode())
	}
	return err
}

func (a *App) Run(args []string) error {
	c := &Context{App: a, vals: map[string]string{}}
	args = args[1:]
	var cmd *Command
	flags := a.Flags
	if len(args) > 0 && !strings.HasPrefix(args[0], "-") {
		for i := range a.Commands {
			if a.Commands[i].Name == args[0] || a.Commands[i].ShortName == args[0] {
				cmd = &a.Commands[i]
				flags = cmd.Flags
			}
		}
		args = args[1:]
	}
	for _, f := range flags {
		if s, ok := f.(StringFlag); ok && s.Value != "" {
			c.vals[s.Name] = s.Value
		}
	}
	for i := 0; i < len(args); i++ {
		n := strings.TrimLeft(args[i], "-")
		if k, v, ok := strings.Cut(n, "="); ok {
			c.vals[k] = v
		} else if i+1 < len(args) {
			c.vals[n] = args[i+1]
			i++
		}
	}
	if cmd != nil {
		c.Command = *cmd
		return call(cmd.Action, c)
	}
	return call(a.Action, c)
}
