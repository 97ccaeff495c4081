// Package cli is an offline stand-in for the urfave/cli v2 API under its old
// import path, which cannot be fetched in this sandbox. It has the parts of it
// that a small tool with one level of commands is likely to use.
package cli

import (
	"errors"
	"flag"
	"fmt"
	"io"
	"os"
	"strings"
)

// ActionFunc is the code of a command.
type ActionFunc func(*Context) error

// BeforeFunc runs before a command.
type BeforeFunc func(*Context) error

// AfterFunc runs after a command.
type AfterFunc func(*Context) error

// Author is someone who wrote the application.
type Author struct{ Name, Email string }

// App is a command-line application.
type App struct {
	Name                 string
	HelpName             string
	Usage                string
	UsageText            string
	ArgsUsage            string
	Version              string
	Description          string
	Copyright            string
	Authors              []*Author
	Commands             []*Command
	Flags                []Flag
	EnableBashCompletion bool
	HideHelp             bool
	HideVersion          bool
	Before               BeforeFunc
	After                AfterFunc
	Action               ActionFunc
	Writer               io.Writer
	ErrWriter            io.Writer
	ExitErrHandler       func(*Context, error)
	Metadata             map[string]interface{}
}

// NewApp builds an empty application.
func NewApp() *App { return &App{Writer: os.Stdout} }

// Command is a subcommand.
type Command struct {
	Name            string
	Aliases         []string
	Usage           string
	UsageText       string
	Description     string
	ArgsUsage       string
	Category        string
	Before          BeforeFunc
	After           AfterFunc
	Action          ActionFunc
	Flags           []Flag
	SkipFlagParsing bool
	HideHelp        bool
	Hidden          bool
	Subcommands     []*Command
	HelpName        string
}

// Flag is a command-line flag.
type Flag interface {
	Names() []string
	apply(*flag.FlagSet)
	required() bool
}

func all(name string, aliases []string) []string { return append([]string{name}, aliases...) }

// StringFlag is a flag with a string value.
type StringFlag struct {
	Name, Usage, Value, DefaultText, FilePath string
	Aliases, EnvVars                          []string
	Required, Hidden, TakesFile               bool
	Destination                               *string
}

// Names are the names of the flag.
func (f *StringFlag) Names() []string { return all(f.Name, f.Aliases) }
func (f *StringFlag) required() bool  { return f.Required }
func (f *StringFlag) apply(s *flag.FlagSet) {
	p := f.Destination
	if p == nil {
		p = new(string)
	}
	v := f.Value
	for _, e := range f.EnvVars {
		if x, ok := os.LookupEnv(e); ok {
			v = x
			break
		}
	}
	for _, n := range f.Names() {
		s.StringVar(p, n, v, f.Usage)
	}
}

// PathFlag is a flag with a path as value.
type PathFlag = StringFlag

// BoolFlag is a switch.
type BoolFlag struct {
	Name, Usage, DefaultText string
	Aliases, EnvVars         []string
	Value, Required, Hidden  bool
	Destination              *bool
}

// Names are the names of the flag.
func (f *BoolFlag) Names() []string { return all(f.Name, f.Aliases) }
func (f *BoolFlag) required() bool  { return f.Required }
func (f *BoolFlag) apply(s *flag.FlagSet) {
	p := f.Destination
	if p == nil {
		p = new(bool)
	}
	for _, n := range f.Names() {
		s.BoolVar(p, n, f.Value, f.Usage)
	}
}

// IntFlag is a flag with an integer value.
type IntFlag struct {
	Name, Usage, DefaultText string
	Aliases, EnvVars         []string
	Value                    int
	Required, Hidden         bool
	Destination              *int
}

// Names are the names of the flag.
func (f *IntFlag) Names() []string { return all(f.Name, f.Aliases) }
func (f *IntFlag) required() bool  { return f.Required }
func (f *IntFlag) apply(s *flag.FlagSet) {
	p := f.Destination
	if p == nil {
		p = new(int)
	}
	for _, n := range f.Names() {
		s.IntVar(p, n, f.Value, f.Usage)
	}
}

// Int64Flag is a flag with a 64-bit integer value.
type Int64Flag struct {
	Name, Usage, DefaultText string
	Aliases, EnvVars         []string
	Value                    int64
	Required, Hidden         bool
	Destination              *int64
}

// Names are the names of the flag.
func (f *Int64Flag) Names() []string { return all(f.Name, f.Aliases) }
func (f *Int64Flag) required() bool  { return f.Required }
func (f *Int64Flag) apply(s *flag.FlagSet) {
	p := f.Destination
	if p == nil {
		p = new(int64)
	}
	for _, n := range f.Names() {
		s.Int64Var(p, n, f.Value, f.Usage)
	}
}

// Args are the positional arguments.
type Args interface {
	Get(n int) string
	First() string
	Tail() []string
	Len() int
	Present() bool
	Slice() []string
}

type args []string

func (a args) Slice() []string { return append([]string{}, a...) }
func (a args) Len() int        { return len(a) }
func (a args) Present() bool   { return len(a) > 0 }
func (a args) First() string   { return a.Get(0) }

func (a args) Tail() []string {
	if len(a) < 2 {
		return []string{}
	}
	return append([]string{}, a[1:]...)
}

func (a args) Get(n int) string {
	if n < len(a) {
		return a[n]
	}
	return ""
}

// Context carries the parsed command line to an action.
type Context struct {
	App     *App
	Command *Command
	set     *flag.FlagSet
}

// Args returns the positional arguments.
func (c *Context) Args() Args { return args(c.set.Args()) }

// NArg returns the number of positional arguments.
func (c *Context) NArg() int { return c.set.NArg() }

// NumFlags returns the number of flags set.
func (c *Context) NumFlags() int { return c.set.NFlag() }

func (c *Context) get(name string) interface{} {
	if f := c.set.Lookup(name); f != nil {
		return f.Value.(flag.Getter).Get()
	}
	return nil
}

// IsSet tells whether a flag was given.
func (c *Context) IsSet(name string) bool {
	set := false
	c.set.Visit(func(f *flag.Flag) { set = set || f.Name == name })
	return set
}

// String returns the value of a string flag.
func (c *Context) String(name string) string { v, _ := c.get(name).(string); return v }

// Path returns the value of a path flag.
func (c *Context) Path(name string) string { return c.String(name) }

// Bool returns the value of a switch.
func (c *Context) Bool(name string) bool { v, _ := c.get(name).(bool); return v }

// Int returns the value of an integer flag.
func (c *Context) Int(name string) int { v, _ := c.get(name).(int); return v }

// Int64 returns the value of a 64-bit integer flag.
func (c *Context) Int64(name string) int64 { v, _ := c.get(name).(int64); return v }

// ExitCoder is an error with an exit status.
type ExitCoder interface {
	error
	ExitCode() int
}

type exitError struct {
	msg  interface{}
	code int
}

func (e *exitError) Error() string { return fmt.Sprint(e.msg) }
func (e *exitError) ExitCode() int { return e.code }

// NewExitError builds an error that ends the program with the given status.
func NewExitError(message interface{}, code int) ExitCoder { return &exitError{message, code} }

// Exit is a synonym of NewExitError.
func Exit(message interface{}, code int) ExitCoder { return NewExitError(message, code) }

// OsExiter ends the program.
var OsExiter = os.Exit

// ErrWriter takes messages.
var ErrWriter io.Writer = os.Stderr

// HandleExitCoder prints the message of an exit error and ends the program.
func HandleExitCoder(err error) {
	var e ExitCoder
	if errors.As(err, &e) {
		if e.Error() != "" {
			fmt.Fprintln(ErrWriter, e)
		}
		OsExiter(e.ExitCode())
	}
}

// ShowAppHelp prints a summary.
func ShowAppHelp(c *Context) error {
	fmt.Printf("NAME:\n   %s - %s\n", c.App.Name, c.App.Usage)
	return nil
}

// ShowCommandHelp prints a summary.
func ShowCommandHelp(c *Context, command string) error { return ShowAppHelp(c) }

// ShowSubcommandHelp prints a summary.
func ShowSubcommandHelp(c *Context) error { return ShowAppHelp(c) }

// RunAndExitOnError is Run that ends the program on errors.
func (a *App) RunAndExitOnError() {
	if err := a.Run(os.Args); err != nil {
		fmt.Fprintln(ErrWriter, err)
		OsExiter(1)
	}
}

// Run runs the application on the given arguments.
func (a *App) Run(arguments []string) error {
	top := &Command{Name: a.Name, Flags: a.Flags, Action: a.Action, Before: a.Before, After: a.After, Subcommands: a.Commands}
	if len(arguments) > 1 && !a.HideVersion {
		switch arguments[1] {
		case "--version", "-version", "-v":
			fmt.Println(a.Name, "version", a.Version)
			return nil
		}
	}
	if len(arguments) > 0 {
		arguments = arguments[1:]
	}
	err := top.run(a, arguments)
	if err != nil {
		if a.ExitErrHandler != nil {
			a.ExitErrHandler(nil, err)
		} else {
			HandleExitCoder(err)
		}
	}
	return err
}

func (cmd *Command) run(a *App, arguments []string) error {
	set := flag.NewFlagSet(cmd.Name, flag.ContinueOnError)
	set.SetOutput(io.Discard)
	for _, f := range cmd.Flags {
		f.apply(set)
	}
	ctx := &Context{App: a, Command: cmd, set: set}
	if err := set.Parse(arguments); err != nil {
		if err == flag.ErrHelp {
			return ShowAppHelp(ctx)
		}
		fmt.Fprintf(os.Stdout, "Incorrect Usage: %s\n\n", err)
		return err
	}
	if set.NArg() > 0 && (set.Arg(0) == "help" || set.Arg(0) == "h") && len(cmd.Subcommands) > 0 {
		return ShowAppHelp(ctx)
	}
	for _, f := range cmd.Flags {
		ok := !f.required()
		for _, n := range f.Names() {
			ok = ok || ctx.IsSet(n)
		}
		if !ok {
			return fmt.Errorf("Required flag %q not set", f.Names()[0])
		}
	}
	// Flags may be given by any of their names.
	for _, f := range cmd.Flags {
		for _, n := range f.Names() {
			if ctx.IsSet(n) {
				v := set.Lookup(n).Value.String()
				for _, m := range f.Names() {
					if err := set.Set(m, v); err != nil {
						return err
					}
				}
				break
			}
		}
	}
	if cmd.Before != nil {
		if err := cmd.Before(ctx); err != nil {
			return err
		}
	}
	if cmd.After != nil {
		defer cmd.After(ctx)
	}
	if set.NArg() > 0 {
		for _, sub := range cmd.Subcommands {
			for _, n := range all(sub.Name, sub.Aliases) {
				if n == set.Arg(0) {
					return sub.run(a, set.Args()[1:])
				}
			}
		}
	}
	if cmd.Action == nil {
		if set.NArg() > 0 {
			return Exit(fmt.Sprintf("No help topic for '%v'", strings.Join(set.Args(), " ")), 3)
		}
		return ShowAppHelp(ctx)
	}
	return cmd.Action(ctx)
}
