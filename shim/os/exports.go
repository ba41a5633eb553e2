package os

import "os"

const (
	DevNull           = os.DevNull
	ModeAppend        = os.ModeAppend
	ModeCharDevice    = os.ModeCharDevice
	ModeDevice        = os.ModeDevice
	ModeDir           = os.ModeDir
	ModeExclusive     = os.ModeExclusive
	ModeIrregular     = os.ModeIrregular
	ModeNamedPipe     = os.ModeNamedPipe
	ModePerm          = os.ModePerm
	ModeSetgid        = os.ModeSetgid
	ModeSetuid        = os.ModeSetuid
	ModeSocket        = os.ModeSocket
	ModeSticky        = os.ModeSticky
	ModeSymlink       = os.ModeSymlink
	ModeTemporary     = os.ModeTemporary
	ModeType          = os.ModeType
	O_APPEND          = os.O_APPEND
	O_CREATE          = os.O_CREATE
	O_EXCL            = os.O_EXCL
	O_RDONLY          = os.O_RDONLY
	O_RDWR            = os.O_RDWR
	O_SYNC            = os.O_SYNC
	O_TRUNC           = os.O_TRUNC
	O_WRONLY          = os.O_WRONLY
	PathListSeparator = os.PathListSeparator
	PathSeparator     = os.PathSeparator
	SEEK_CUR          = os.SEEK_CUR
	SEEK_END          = os.SEEK_END
	SEEK_SET          = os.SEEK_SET
)

type (
	DirEntry     = os.DirEntry
	FileInfo     = os.FileInfo
	FileMode     = os.FileMode
	LinkError    = os.LinkError
	PathError    = os.PathError
	ProcAttr     = os.ProcAttr
	Process      = os.Process
	ProcessState = os.ProcessState
	Root         = os.Root
	Signal       = os.Signal
	SyscallError = os.SyscallError
)

var (
	Args                = os.Args
	ErrClosed           = os.ErrClosed
	ErrDeadlineExceeded = os.ErrDeadlineExceeded
	ErrExist            = os.ErrExist
	ErrInvalid          = os.ErrInvalid
	ErrNoDeadline       = os.ErrNoDeadline
	ErrNoHandle         = os.ErrNoHandle
	ErrNotExist         = os.ErrNotExist
	ErrPermission       = os.ErrPermission
	ErrProcessDone      = os.ErrProcessDone
	Interrupt           = os.Interrupt
	Kill                = os.Kill
)

var (
	Chdir           = os.Chdir
	Chmod           = os.Chmod
	Chown           = os.Chown
	Chtimes         = os.Chtimes
	Clearenv        = os.Clearenv
	CopyFS          = os.CopyFS
	DirFS           = os.DirFS
	Environ         = os.Environ
	Executable      = os.Executable
	Exit            = os.Exit
	Expand          = os.Expand
	ExpandEnv       = os.ExpandEnv
	FindProcess     = os.FindProcess
	Getegid         = os.Getegid
	Getenv          = os.Getenv
	Geteuid         = os.Geteuid
	Getgid          = os.Getgid
	Getgroups       = os.Getgroups
	Getpagesize     = os.Getpagesize
	Getpid          = os.Getpid
	Getppid         = os.Getppid
	Getuid          = os.Getuid
	Getwd           = os.Getwd
	Hostname        = os.Hostname
	IsExist         = os.IsExist
	IsNotExist      = os.IsNotExist
	IsPathSeparator = os.IsPathSeparator
	IsPermission    = os.IsPermission
	IsTimeout       = os.IsTimeout
	Lchown          = os.Lchown
	Link            = os.Link
	LookupEnv       = os.LookupEnv
	MkdirTemp       = os.MkdirTemp
	NewSyscallError = os.NewSyscallError
	OpenRoot        = os.OpenRoot
	Readlink        = os.Readlink
	SameFile        = os.SameFile
	Setenv          = os.Setenv
	StartProcess    = os.StartProcess
	Symlink         = os.Symlink
	TempDir         = os.TempDir
	Unsetenv        = os.Unsetenv
	UserCacheDir    = os.UserCacheDir
	UserConfigDir   = os.UserConfigDir
	UserHomeDir     = os.UserHomeDir
)
