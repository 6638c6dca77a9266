package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"os"
	"syscall"
)

// The errors that files and streams report when they fail: of every kind, bare and wrapped,
// because no kind of failure may be taken for a success.
var failures = []error{
	errors.New("destination fails"), fs.ErrExist, fs.ErrPermission, fs.ErrNotExist, fs.ErrClosed, fs.ErrInvalid,
	io.EOF, io.ErrUnexpectedEOF, io.ErrShortWrite, io.ErrClosedPipe, io.ErrNoProgress,
	os.ErrDeadlineExceeded, context.Canceled, context.DeadlineExceeded, errors.ErrUnsupported,
	syscall.ENOSPC, syscall.EINTR, syscall.EAGAIN, syscall.EPIPE, syscall.EACCES, syscall.EEXIST, syscall.ENOENT, syscall.EISDIR,
	syscall.EINVAL, syscall.EBADF, syscall.EROFS, syscall.EIO, fs.SkipDir, fs.SkipAll,
}

var failureNo int

// nextFailure goes through all failures, of the operation given.
func nextFailure(op string) error {
	failureNo++
	err := failures[failureNo%len(failures)]
	switch failureNo / len(failures) % 3 {
	case 1:
		return &fs.PathError{Op: op, Path: "resource", Err: err}
	case 2:
		return fmt.Errorf("%s: %w", op, err)
	}
	return err
}

// nextReadFailure leaves out the error that means the end of the data.
func nextReadFailure() error {
	for {
		if err := nextFailure("read"); err != io.EOF {
			return err
		}
	}
}
