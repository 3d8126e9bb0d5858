package props

import (
	"context"
	"errors"
	"io"
	"os"

	"fmt"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/sax"
)

func errorf(f string, a ...interface{}) error { return fmt.Errorf(f, a...) }

// show quotes a document for a message
func show(b []byte) string { return clip(fmt.Sprintf("%q", b), 1500) }

// names of the encodings that are supported
var encNames = []string{"utf-8", "utf-16", "utf-16le", "utf-16be", "euc-jp", "shift_jis", "cp932", "iso-2022-jp", "big5", "euc-kr", "hz-gb2312", "cp437", "cp866", "iso-8859-1", "iso-8859-2", "iso-8859-15", "koi8r", "koi8u", "macintosh", "windows-1252", "windows-874", "xuserdefined"}

type plainErr struct{ s string }

func (e *plainErr) Error() string { return e.s }

// someErrs are errors that a caller's function may return. Only
// sax.ErrHandlerUnspecified has a meaning, and only for callbacks.
var someErrs = []struct {
	name string
	err  error
}{
	{"new", errors.New("injected failure")},
	{"EOF", io.EOF},
	{"unexpected EOF", io.ErrUnexpectedEOF},
	{"short write", io.ErrShortWrite},
	{"wrapped EOF", fmt.Errorf("wrapped: %w", io.EOF)},
	{"wrapped unspecified", fmt.Errorf("wrapped: %w", sax.ErrHandlerUnspecified)},
	{"parse error", helium.ErrParseError{Err: io.EOF, LineNumber: 1}},
	{"empty message", &plainErr{}},
	{"own type", &plainErr{"own"}},
	{"not exist", os.ErrNotExist},
	{"canceled", context.Canceled},
	{"helium.ErrEOF", helium.ErrEOF},
	{"helium.ErrPrematureEOF", helium.ErrPrematureEOF},
	{"helium.ErrParseSucceeded", helium.ErrParseSucceeded},
	{"helium.ErrAttrNotFound", helium.ErrAttrNotFound{}},
	{"helium.ErrEntityNotFound", helium.ErrEntityNotFound},
	{"helium.ErrUndeclaredEntity", helium.ErrUndeclaredEntity},
	{"helium.ErrNilNode", helium.ErrNilNode},
	{"helium.ErrInvalidOperation", helium.ErrInvalidOperation},
	{"helium.ErrDuplicateAttribute", helium.ErrDuplicateAttribute},
	{"helium.ErrDocumentEnd", helium.ErrDocumentEnd},
	{"helium.ErrEmptyDocument", helium.ErrEmptyDocument},
	{"helium.ErrInvalidName", helium.ErrInvalidName},
}

// unspecified is for functions that are not callbacks
var unspecified = sax.ErrHandlerUnspecified
