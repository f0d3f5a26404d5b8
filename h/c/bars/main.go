// C27 scrollbars, C28 gauges, C29 tabs, C30 throbbers.
package main

import "os"

func main() {
	switch os.Getenv("VERIF_PROP") {
	case "C27":
		scrollbars()
	case "C28":
		gauges()
	case "C29":
		tabs()
	case "C30":
		throbbers()
	}
}
