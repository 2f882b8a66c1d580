package main

import (
	"fmt"
	"os"

	"golang.org/x/sys/unix"
)

// openPty opens a new pseudo terminal pair.
func openPty() (master, slave *os.File, err error) {
	fd, err := unix.Open("/dev/ptmx", unix.O_RDWR|unix.O_NOCTTY|unix.O_CLOEXEC, 0)
	if err != nil {
		return nil, nil, err
	}
	n, err := unix.IoctlGetInt(fd, unix.TIOCGPTN)
	if err != nil {
		return nil, nil, err
	}
	if err := unix.IoctlSetPointerInt(fd, unix.TIOCSPTLCK, 0); err != nil {
		return nil, nil, err
	}
	sfd, err := unix.Open(fmt.Sprintf("/dev/pts/%d", n), unix.O_RDWR|unix.O_NOCTTY|unix.O_CLOEXEC, 0)
	if err != nil {
		return nil, nil, err
	}
	if err := unix.SetNonblock(fd, true); err != nil {
		return nil, nil, err
	}
	return os.NewFile(uintptr(fd), "ptmx"), os.NewFile(uintptr(sfd), fmt.Sprintf("/dev/pts/%d", n)), nil
}

func setWinsize(f *os.File, w, h int) error {
	return unix.IoctlSetWinsize(int(f.Fd()), unix.TIOCSWINSZ, &unix.Winsize{Row: uint16(h), Col: uint16(w)})
}

func termios(f *os.File) (unix.Termios, error) {
	t, err := unix.IoctlGetTermios(int(f.Fd()), unix.TCGETS)
	if err != nil {
		return unix.Termios{}, err
	}
	return *t, nil
}

// setFlags sets up the line settings the application finds, with echo off.
func setFlags(f *os.File, variant int) error {
	t, err := termios(f)
	if err != nil {
		return err
	}
	t.Lflag &^= unix.ECHO | unix.ECHOCTL
	if variant&1 != 0 {
		t.Iflag ^= unix.IXON | unix.IXANY
	}
	if variant&2 != 0 {
		t.Lflag ^= unix.ISIG | unix.IEXTEN
	}
	if variant&4 != 0 {
		t.Oflag ^= unix.ONLCR
		t.Cc[unix.VMIN], t.Cc[unix.VTIME] = 3, 2
	}
	return unix.IoctlSetTermios(int(f.Fd()), unix.TCSETS, &t)
}
