package mos

import "github.com/BTBurke/monny/zzverif/sym"

// AtExit is called when the program exits, with its status.
var AtExit func(code int)

//sym:model os.Exit
func Exit(code int) {
	if AtExit != nil {
		AtExit(code)
	}
	sym.Stop()
}
