package vos

import (
	"io/fs"
	"os"
)

// The parts of package os which do not touch files.

type (
	FileInfo     = fs.FileInfo
	FileMode     = fs.FileMode
	DirEntry     = fs.DirEntry
	PathError    = fs.PathError
	LinkError    = os.LinkError
	SyscallError = os.SyscallError
	Signal       = os.Signal
)

const (
	O_RDONLY = os.O_RDONLY
	O_WRONLY = os.O_WRONLY
	O_RDWR   = os.O_RDWR
	O_APPEND = os.O_APPEND
	O_CREATE = os.O_CREATE
	O_EXCL   = os.O_EXCL
	O_SYNC   = os.O_SYNC
	O_TRUNC  = os.O_TRUNC

	ModeDir     = os.ModeDir
	ModePerm    = os.ModePerm
	ModeType    = os.ModeType
	ModeSymlink = os.ModeSymlink

	PathSeparator     = os.PathSeparator
	PathListSeparator = os.PathListSeparator
	DevNull           = os.DevNull

	SEEK_SET = 0
	SEEK_CUR = 1
	SEEK_END = 2
)

var (
	ErrInvalid          = os.ErrInvalid
	ErrPermission       = os.ErrPermission
	ErrExist            = os.ErrExist
	ErrNotExist         = os.ErrNotExist
	ErrClosed           = os.ErrClosed
	ErrNoDeadline       = os.ErrNoDeadline
	ErrDeadlineExceeded = os.ErrDeadlineExceeded
	ErrProcessDone      = os.ErrProcessDone

	Stdin  = os.Stdin
	Stdout = os.Stdout
	Stderr = os.Stderr
	Args   = os.Args

	Getenv          = os.Getenv
	LookupEnv       = os.LookupEnv
	Environ         = os.Environ
	Expand          = os.Expand
	ExpandEnv       = os.ExpandEnv
	Getpid          = os.Getpid
	Getppid         = os.Getppid
	Getuid          = os.Getuid
	Getgid          = os.Getgid
	Geteuid         = os.Geteuid
	Hostname        = os.Hostname
	Getwd           = os.Getwd
	UserCacheDir    = os.UserCacheDir
	UserHomeDir     = os.UserHomeDir
	IsExist         = os.IsExist
	IsNotExist      = os.IsNotExist
	IsPermission    = os.IsPermission
	IsTimeout       = os.IsTimeout
	IsPathSeparator = os.IsPathSeparator
	NewSyscallError = os.NewSyscallError
	Getpagesize     = os.Getpagesize
	Exit            = os.Exit
)
