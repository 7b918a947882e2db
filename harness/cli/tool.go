package main

import (
	"bytes"
	"flag"

	"github.com/urfave/cli/v2"
)

// tool runs a command of the program on an input and returns its output.
func tool(name string, in []byte) ([]byte, error) {
	var out, errOut bytes.Buffer
	app := BuildApp(bytes.NewReader(in), &out, &errOut)
	for _, c := range app.Commands {
		if c.Name == name {
			err := c.Action(cli.NewContext(app, flag.NewFlagSet(name, flag.ContinueOnError), nil))
			return out.Bytes(), err
		}
	}
	panic("no such command")
}
