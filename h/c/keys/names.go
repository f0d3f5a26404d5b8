package main

import "github.com/metafates/bento"

// keyNames are the names programs compare keys with.
var keyNames = map[bento.KeyType]string{
	bento.KeyNull:             "ctrl+@",
	bento.KeyCtrlA:            "ctrl+a",
	bento.KeyCtrlB:            "ctrl+b",
	bento.KeyBreak:            "ctrl+c",
	bento.KeyCtrlD:            "ctrl+d",
	bento.KeyCtrlE:            "ctrl+e",
	bento.KeyCtrlF:            "ctrl+f",
	bento.KeyCtrlG:            "ctrl+g",
	bento.KeyCtrlH:            "ctrl+h",
	bento.KeyTab:              "tab",
	bento.KeyCtrlJ:            "ctrl+j",
	bento.KeyCtrlK:            "ctrl+k",
	bento.KeyCtrlL:            "ctrl+l",
	bento.KeyEnter:            "enter",
	bento.KeyCtrlN:            "ctrl+n",
	bento.KeyCtrlO:            "ctrl+o",
	bento.KeyCtrlP:            "ctrl+p",
	bento.KeyCtrlQ:            "ctrl+q",
	bento.KeyCtrlR:            "ctrl+r",
	bento.KeyCtrlS:            "ctrl+s",
	bento.KeyCtrlT:            "ctrl+t",
	bento.KeyCtrlU:            "ctrl+u",
	bento.KeyCtrlV:            "ctrl+v",
	bento.KeyCtrlW:            "ctrl+w",
	bento.KeyCtrlX:            "ctrl+x",
	bento.KeyCtrlY:            "ctrl+y",
	bento.KeyCtrlZ:            "ctrl+z",
	bento.KeyEsc:              "esc",
	bento.KeyCtrlBackslash:    "ctrl+\\",
	bento.KeyCtrlCloseBracket: "ctrl+]",
	bento.KeyCtrlCaret:        "ctrl+^",
	bento.KeyCtrlUnderscore:   "ctrl+_",
	bento.KeyBackspace:        "backspace",
	bento.KeyRunes:            "runes",
	bento.KeyUp:               "up",
	bento.KeyDown:             "down",
	bento.KeyRight:            "right",
	bento.KeySpace:            " ",
	bento.KeyLeft:             "left",
	bento.KeyShiftTab:         "shift+tab",
	bento.KeyHome:             "home",
	bento.KeyEnd:              "end",
	bento.KeyCtrlHome:         "ctrl+home",
	bento.KeyCtrlEnd:          "ctrl+end",
	bento.KeyShiftHome:        "shift+home",
	bento.KeyShiftEnd:         "shift+end",
	bento.KeyCtrlShiftHome:    "ctrl+shift+home",
	bento.KeyCtrlShiftEnd:     "ctrl+shift+end",
	bento.KeyPgUp:             "pgup",
	bento.KeyPgDown:           "pgdown",
	bento.KeyCtrlPgUp:         "ctrl+pgup",
	bento.KeyCtrlPgDown:       "ctrl+pgdown",
	bento.KeyDelete:           "delete",
	bento.KeyInsert:           "insert",
	bento.KeyCtrlUp:           "ctrl+up",
	bento.KeyCtrlDown:         "ctrl+down",
	bento.KeyCtrlRight:        "ctrl+right",
	bento.KeyCtrlLeft:         "ctrl+left",
	bento.KeyShiftUp:          "shift+up",
	bento.KeyShiftDown:        "shift+down",
	bento.KeyShiftRight:       "shift+right",
	bento.KeyShiftLeft:        "shift+left",
	bento.KeyCtrlShiftUp:      "ctrl+shift+up",
	bento.KeyCtrlShiftDown:    "ctrl+shift+down",
	bento.KeyCtrlShiftLeft:    "ctrl+shift+left",
	bento.KeyCtrlShiftRight:   "ctrl+shift+right",
	bento.KeyF1:               "f1",
	bento.KeyF2:               "f2",
	bento.KeyF3:               "f3",
	bento.KeyF4:               "f4",
	bento.KeyF5:               "f5",
	bento.KeyF6:               "f6",
	bento.KeyF7:               "f7",
	bento.KeyF8:               "f8",
	bento.KeyF9:               "f9",
	bento.KeyF10:              "f10",
	bento.KeyF11:              "f11",
	bento.KeyF12:              "f12",
	bento.KeyF13:              "f13",
	bento.KeyF14:              "f14",
	bento.KeyF15:              "f15",
	bento.KeyF16:              "f16",
	bento.KeyF17:              "f17",
	bento.KeyF18:              "f18",
	bento.KeyF19:              "f19",
	bento.KeyF20:              "f20",
}

// nameOf is how a key is called.
func nameOf(k bento.Key) string {
	s := keyNames[k.Type]
	if k.Type == bento.KeyRunes {
		if s = string(k.Runes); k.Paste {
			s = "[" + s + "]"
		}
	}
	if k.Alt {
		s = "alt+" + s
	}
	return s
}
