//go:build go1.25

package verif_vsched

import "fmt"

// Loud lets the code under test format what it prints. Formatting every frame costs more than the rest of a session.
var Loud bool

func FmtPrint(a ...interface{}) (int, error) {
	if !Loud {
		return 0, nil
	}
	return fmt.Print(a...)
}

func FmtPrintln(a ...interface{}) (int, error) {
	if !Loud {
		return 0, nil
	}
	return fmt.Println(a...)
}

func FmtPrintf(f string, a ...interface{}) (int, error) {
	if !Loud {
		return 0, nil
	}
	return fmt.Printf(f, a...)
}
