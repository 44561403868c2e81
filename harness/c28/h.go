// Package c28: Unix V6 modes and inodes convert exactly.
package c28

import (
	"os"
	"time"

	u "github.com/dargueta/disko/file_systems/unixv6"
	"github.com/dargueta/disko/zz_verif/sym"
)

// kind is the os package's representation of the type in a Unix V6 mode word.
func kind(flags uint16) os.FileMode {
	switch flags & 0x6000 {
	case 0x6000:
		return os.ModeDevice
	case 0x4000:
		return os.ModeDir
	case 0x2000:
		return os.ModeDevice | os.ModeCharDevice
	}
	return 0
}

func checkMode(flags uint16, m os.FileMode) {
	sym.Assert(m&os.ModePerm == os.FileMode(flags&0x1ff), "the permission bits are kept")
	sym.Assert((m&os.ModeSetuid != 0) == (flags&0x800 != 0), "the set-uid bit is kept")
	sym.Assert((m&os.ModeSetgid != 0) == (flags&0x400 != 0), "the set-gid bit is kept")
	sym.Assert(m&os.ModeType == kind(flags), "the type is the os package's representation")
	sym.Assert(m&^(os.ModePerm|os.ModeSetuid|os.ModeSetgid|os.ModeType|os.ModeSticky) == 0, "nothing else is set")
	sym.Assert(m.IsDir() == (flags&0x6000 == 0x4000) && m.IsRegular() == (flags&0x6000 == 0), "directories and regular files are recognised")
}

// H_FromFS: all 16-bit mode words, there and back.
func H_FromFS() {
	flags := sym.Uint16()
	m, err := u.ConvertFSFlagsToStandard(flags)
	if flags&0x8000 == 0 {
		return // not allocated
	}
	sym.Assert(err == nil, "the mode of an allocated inode converts")
	checkMode(flags, m)
	back, err := u.ConvertStandardFlagsToFS(m)
	sym.Assert(err == nil, "a converted mode converts back")
	const kept = 0x8000 | 0x6000 | 0x800 | 0x400 | 0x1ff
	sym.Assert(back&kept == flags&kept, "permissions, set-uid, set-gid and type survive the round trip")
	sym.Assert(back&^(kept|0x1000) == 0, "nothing else appears in the round trip")
}

// H_FromStandard: all 32-bit file modes.
func H_FromStandard() {
	m := os.FileMode(sym.Uint32())
	flags, err := u.ConvertStandardFlagsToFS(m)
	switch m & os.ModeType {
	case 0, os.ModeDir, os.ModeDevice, os.ModeDevice | os.ModeCharDevice:
		sym.Assert(err == nil, "a type Unix V6 has converts")
		sym.Assert(flags&0x8000 != 0, "a converted mode is that of an allocated inode")
		checkMode(flags&^0x1200, m&^os.ModeSticky&(os.ModeType|os.ModePerm|os.ModeSetuid|os.ModeSetgid))
		n, err := u.ConvertFSFlagsToStandard(flags)
		const kept = os.ModeType | os.ModePerm | os.ModeSetuid | os.ModeSetgid
		sym.Assert(err == nil && n&kept == m&kept, "a standard mode survives the round trip")
		sym.Cover("representable")
	case os.ModeCharDevice: // not a mode the os package uses
	default:
		sym.Assert(err != nil, "types Unix V6 cannot represent are refused")
		sym.Cover("refused")
	}
}

// H_Inode: all inodes.
func H_Inode() {
	var in u.RawInode
	in.Flags = sym.Uint16()
	sym.Assume(in.Flags&0x8000 != 0)
	in.NLink = sym.Byte()
	in.UID = sym.Byte()
	in.GID = sym.Byte()
	for i := range in.Size {
		in.Size[i] = sym.Byte()
	}
	for i := range in.Addr {
		in.Addr[i] = u.BlockNum(sym.Uint16())
	}
	in.AccessedTime = sym.Uint32()
	in.ModifiedTime = sym.Uint32()
	num := sym.Uint16()
	st, err := u.RawInodeToStat(u.Inumber(num), in)
	sym.Assert(err == nil, "an allocated inode converts")
	size := int64(in.Size[0])<<16 | int64(in.Size[2])<<8 | int64(in.Size[1])
	sym.Assert(st.Size == size, "the size is the 24-bit value, high byte first")
	sym.Assert(st.BlockSize == 512, "blocks have 512 bytes")
	sym.Assert(st.NumBlocks == (size+511)>>9, "the block count is the size in blocks rounded up")
	sym.Assert(st.Uid == uint32(in.UID) && st.Gid == uint32(in.GID), "the owner is that stored")
	sym.Assert(st.Nlinks == uint64(in.NLink), "the link count is that stored")
	sym.Assert(st.InodeNumber == uint64(num), "the inode number is that given")
	sym.Assert(st.LastAccessed.Equal(time.Unix(int64(in.AccessedTime), 0)), "the access time is that stored")
	sym.Assert(st.LastModified.Equal(time.Unix(int64(in.ModifiedTime), 0)), "the modification time is that stored")
	checkMode(in.Flags, st.ModeFlags)
}
