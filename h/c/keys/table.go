package main

import "github.com/metafates/bento"

// keyTable lists the sequences terminals send for keys: xterm, urxvt, the
// Linux console, DECCKM.
var keyTable = []struct {
	seq string
	key bento.KeyType
	alt bool
}{
	{"\x1b[A", bento.KeyUp, false},
	{"\x1b[B", bento.KeyDown, false},
	{"\x1b[C", bento.KeyRight, false},
	{"\x1b[D", bento.KeyLeft, false},
	{"\x1b[1;2A", bento.KeyShiftUp, false},
	{"\x1b[1;2B", bento.KeyShiftDown, false},
	{"\x1b[1;2C", bento.KeyShiftRight, false},
	{"\x1b[1;2D", bento.KeyShiftLeft, false},
	{"\x1b[OA", bento.KeyShiftUp, false},
	{"\x1b[OB", bento.KeyShiftDown, false},
	{"\x1b[OC", bento.KeyShiftRight, false},
	{"\x1b[OD", bento.KeyShiftLeft, false},
	{"\x1b[a", bento.KeyShiftUp, false},
	{"\x1b[b", bento.KeyShiftDown, false},
	{"\x1b[c", bento.KeyShiftRight, false},
	{"\x1b[d", bento.KeyShiftLeft, false},
	{"\x1b[1;3A", bento.KeyUp, true},
	{"\x1b[1;3B", bento.KeyDown, true},
	{"\x1b[1;3C", bento.KeyRight, true},
	{"\x1b[1;3D", bento.KeyLeft, true},
	{"\x1b[1;4A", bento.KeyShiftUp, true},
	{"\x1b[1;4B", bento.KeyShiftDown, true},
	{"\x1b[1;4C", bento.KeyShiftRight, true},
	{"\x1b[1;4D", bento.KeyShiftLeft, true},
	{"\x1b[1;5A", bento.KeyCtrlUp, false},
	{"\x1b[1;5B", bento.KeyCtrlDown, false},
	{"\x1b[1;5C", bento.KeyCtrlRight, false},
	{"\x1b[1;5D", bento.KeyCtrlLeft, false},
	{"\x1b[Oa", bento.KeyCtrlUp, true},
	{"\x1b[Ob", bento.KeyCtrlDown, true},
	{"\x1b[Oc", bento.KeyCtrlRight, true},
	{"\x1b[Od", bento.KeyCtrlLeft, true},
	{"\x1b[1;6A", bento.KeyCtrlShiftUp, false},
	{"\x1b[1;6B", bento.KeyCtrlShiftDown, false},
	{"\x1b[1;6C", bento.KeyCtrlShiftRight, false},
	{"\x1b[1;6D", bento.KeyCtrlShiftLeft, false},
	{"\x1b[1;7A", bento.KeyCtrlUp, true},
	{"\x1b[1;7B", bento.KeyCtrlDown, true},
	{"\x1b[1;7C", bento.KeyCtrlRight, true},
	{"\x1b[1;7D", bento.KeyCtrlLeft, true},
	{"\x1b[1;8A", bento.KeyCtrlShiftUp, true},
	{"\x1b[1;8B", bento.KeyCtrlShiftDown, true},
	{"\x1b[1;8C", bento.KeyCtrlShiftRight, true},
	{"\x1b[1;8D", bento.KeyCtrlShiftLeft, true},
	{"\x1b[Z", bento.KeyShiftTab, false},
	{"\x1b[2~", bento.KeyInsert, false},
	{"\x1b[3;2~", bento.KeyInsert, true},
	{"\x1b[3~", bento.KeyDelete, false},
	{"\x1b[3;3~", bento.KeyDelete, true},
	{"\x1b[5~", bento.KeyPgUp, false},
	{"\x1b[5;3~", bento.KeyPgUp, true},
	{"\x1b[5;5~", bento.KeyCtrlPgUp, false},
	{"\x1b[5^", bento.KeyCtrlPgUp, false},
	{"\x1b[5;7~", bento.KeyCtrlPgUp, true},
	{"\x1b[6~", bento.KeyPgDown, false},
	{"\x1b[6;3~", bento.KeyPgDown, true},
	{"\x1b[6;5~", bento.KeyCtrlPgDown, false},
	{"\x1b[6^", bento.KeyCtrlPgDown, false},
	{"\x1b[6;7~", bento.KeyCtrlPgDown, true},
	{"\x1b[1~", bento.KeyHome, false},
	{"\x1b[H", bento.KeyHome, false},
	{"\x1b[1;3H", bento.KeyHome, true},
	{"\x1b[1;5H", bento.KeyCtrlHome, false},
	{"\x1b[1;7H", bento.KeyCtrlHome, true},
	{"\x1b[1;2H", bento.KeyShiftHome, false},
	{"\x1b[1;4H", bento.KeyShiftHome, true},
	{"\x1b[1;6H", bento.KeyCtrlShiftHome, false},
	{"\x1b[1;8H", bento.KeyCtrlShiftHome, true},
	{"\x1b[4~", bento.KeyEnd, false},
	{"\x1b[F", bento.KeyEnd, false},
	{"\x1b[1;3F", bento.KeyEnd, true},
	{"\x1b[1;5F", bento.KeyCtrlEnd, false},
	{"\x1b[1;7F", bento.KeyCtrlEnd, true},
	{"\x1b[1;2F", bento.KeyShiftEnd, false},
	{"\x1b[1;4F", bento.KeyShiftEnd, true},
	{"\x1b[1;6F", bento.KeyCtrlShiftEnd, false},
	{"\x1b[1;8F", bento.KeyCtrlShiftEnd, true},
	{"\x1b[7~", bento.KeyHome, false},
	{"\x1b[7^", bento.KeyCtrlHome, false},
	{"\x1b[7$", bento.KeyShiftHome, false},
	{"\x1b[7@", bento.KeyCtrlShiftHome, false},
	{"\x1b[8~", bento.KeyEnd, false},
	{"\x1b[8^", bento.KeyCtrlEnd, false},
	{"\x1b[8$", bento.KeyShiftEnd, false},
	{"\x1b[8@", bento.KeyCtrlShiftEnd, false},
	{"\x1b[[A", bento.KeyF1, false},
	{"\x1b[[B", bento.KeyF2, false},
	{"\x1b[[C", bento.KeyF3, false},
	{"\x1b[[D", bento.KeyF4, false},
	{"\x1b[[E", bento.KeyF5, false},
	{"\x1bOP", bento.KeyF1, false},
	{"\x1bOQ", bento.KeyF2, false},
	{"\x1bOR", bento.KeyF3, false},
	{"\x1bOS", bento.KeyF4, false},
	{"\x1b[1;3P", bento.KeyF1, true},
	{"\x1b[1;3Q", bento.KeyF2, true},
	{"\x1b[1;3R", bento.KeyF3, true},
	{"\x1b[1;3S", bento.KeyF4, true},
	{"\x1b[11~", bento.KeyF1, false},
	{"\x1b[12~", bento.KeyF2, false},
	{"\x1b[13~", bento.KeyF3, false},
	{"\x1b[14~", bento.KeyF4, false},
	{"\x1b[15~", bento.KeyF5, false},
	{"\x1b[15;3~", bento.KeyF5, true},
	{"\x1b[17~", bento.KeyF6, false},
	{"\x1b[18~", bento.KeyF7, false},
	{"\x1b[19~", bento.KeyF8, false},
	{"\x1b[20~", bento.KeyF9, false},
	{"\x1b[21~", bento.KeyF10, false},
	{"\x1b[17;3~", bento.KeyF6, true},
	{"\x1b[18;3~", bento.KeyF7, true},
	{"\x1b[19;3~", bento.KeyF8, true},
	{"\x1b[20;3~", bento.KeyF9, true},
	{"\x1b[21;3~", bento.KeyF10, true},
	{"\x1b[23~", bento.KeyF11, false},
	{"\x1b[24~", bento.KeyF12, false},
	{"\x1b[23;3~", bento.KeyF11, true},
	{"\x1b[24;3~", bento.KeyF12, true},
	{"\x1b[1;2P", bento.KeyF13, false},
	{"\x1b[1;2Q", bento.KeyF14, false},
	{"\x1b[25~", bento.KeyF13, false},
	{"\x1b[26~", bento.KeyF14, false},
	{"\x1b[25;3~", bento.KeyF13, true},
	{"\x1b[26;3~", bento.KeyF14, true},
	{"\x1b[1;2R", bento.KeyF15, false},
	{"\x1b[1;2S", bento.KeyF16, false},
	{"\x1b[28~", bento.KeyF15, false},
	{"\x1b[29~", bento.KeyF16, false},
	{"\x1b[28;3~", bento.KeyF15, true},
	{"\x1b[29;3~", bento.KeyF16, true},
	{"\x1b[15;2~", bento.KeyF17, false},
	{"\x1b[17;2~", bento.KeyF18, false},
	{"\x1b[18;2~", bento.KeyF19, false},
	{"\x1b[19;2~", bento.KeyF20, false},
	{"\x1b[31~", bento.KeyF17, false},
	{"\x1b[32~", bento.KeyF18, false},
	{"\x1b[33~", bento.KeyF19, false},
	{"\x1b[34~", bento.KeyF20, false},
	{"\x1bOA", bento.KeyUp, false},
	{"\x1bOB", bento.KeyDown, false},
	{"\x1bOC", bento.KeyRight, false},
	{"\x1bOD", bento.KeyLeft, false},
}
