// C22: every widget in every rectangle of a small buffer. C32: popups, clear, fill. C33: nothing is shared behind the scenes.
package main

import "os"

func main() {
	switch os.Getenv("VERIF_PROP") {
	case "C22":
		confine()
	case "C32":
		popups()
	case "C33":
		together()
	}
}
