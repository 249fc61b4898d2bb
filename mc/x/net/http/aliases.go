// Code generated by genmirror. DO NOT EDIT.

package http

import o_ "net/http"

var AllowQuerySemicolons = o_.AllowQuerySemicolons
var CanonicalHeaderKey = o_.CanonicalHeaderKey

type ClientConn = o_.ClientConn
type CloseNotifier = o_.CloseNotifier
type ConnState = o_.ConnState
type Cookie = o_.Cookie
type CookieJar = o_.CookieJar
type CrossOriginProtection = o_.CrossOriginProtection

const DefaultMaxHeaderBytes = o_.DefaultMaxHeaderBytes
const DefaultMaxHeaderValueCount = o_.DefaultMaxHeaderValueCount
const DefaultMaxIdleConnsPerHost = o_.DefaultMaxIdleConnsPerHost

var DefaultServeMux = o_.DefaultServeMux
var DefaultTransport = o_.DefaultTransport
var DetectContentType = o_.DetectContentType

type Dir = o_.Dir

var ErrAbortHandler = o_.ErrAbortHandler
var ErrBodyNotAllowed = o_.ErrBodyNotAllowed
var ErrBodyReadAfterClose = o_.ErrBodyReadAfterClose
var ErrContentLength = o_.ErrContentLength
var ErrHandlerTimeout = o_.ErrHandlerTimeout
var ErrHeaderTooLong = o_.ErrHeaderTooLong
var ErrHijacked = o_.ErrHijacked
var ErrLineTooLong = o_.ErrLineTooLong
var ErrMissingBoundary = o_.ErrMissingBoundary
var ErrMissingContentLength = o_.ErrMissingContentLength
var ErrMissingFile = o_.ErrMissingFile
var ErrNoCookie = o_.ErrNoCookie
var ErrNoLocation = o_.ErrNoLocation
var ErrNotMultipart = o_.ErrNotMultipart
var ErrNotSupported = o_.ErrNotSupported
var ErrSchemeMismatch = o_.ErrSchemeMismatch
var ErrServerClosed = o_.ErrServerClosed
var ErrShortBody = o_.ErrShortBody
var ErrSkipAltProtocol = o_.ErrSkipAltProtocol
var ErrUnexpectedTrailer = o_.ErrUnexpectedTrailer
var ErrUseLastResponse = o_.ErrUseLastResponse
var ErrWriteAfterFlush = o_.ErrWriteAfterFlush
var Error = o_.Error
var FS = o_.FS

type File = o_.File

var FileServer = o_.FileServer
var FileServerFS = o_.FileServerFS

type FileSystem = o_.FileSystem
type Flusher = o_.Flusher
type HTTP2Config = o_.HTTP2Config

var Handle = o_.Handle
var HandleFunc = o_.HandleFunc

type Handler = o_.Handler
type HandlerFunc = o_.HandlerFunc
type Header = o_.Header
type Hijacker = o_.Hijacker

var LocalAddrContextKey = o_.LocalAddrContextKey

type MaxBytesError = o_.MaxBytesError

var MaxBytesHandler = o_.MaxBytesHandler
var MaxBytesReader = o_.MaxBytesReader

const MethodConnect = o_.MethodConnect
const MethodDelete = o_.MethodDelete
const MethodGet = o_.MethodGet
const MethodHead = o_.MethodHead
const MethodOptions = o_.MethodOptions
const MethodPatch = o_.MethodPatch
const MethodPost = o_.MethodPost
const MethodPut = o_.MethodPut
const MethodTrace = o_.MethodTrace

var NewCrossOriginProtection = o_.NewCrossOriginProtection
var NewFileTransport = o_.NewFileTransport
var NewFileTransportFS = o_.NewFileTransportFS
var NewRequest = o_.NewRequest
var NewRequestWithContext = o_.NewRequestWithContext
var NewResponseController = o_.NewResponseController
var NewServeMux = o_.NewServeMux
var NoBody = o_.NoBody
var NotFound = o_.NotFound
var NotFoundHandler = o_.NotFoundHandler
var ParseCookie = o_.ParseCookie
var ParseHTTPVersion = o_.ParseHTTPVersion
var ParseSetCookie = o_.ParseSetCookie
var ParseTime = o_.ParseTime

type ProtocolError = o_.ProtocolError
type Protocols = o_.Protocols

var ProxyFromEnvironment = o_.ProxyFromEnvironment
var ProxyURL = o_.ProxyURL

type PushOptions = o_.PushOptions
type Pusher = o_.Pusher

var ReadRequest = o_.ReadRequest
var ReadResponse = o_.ReadResponse
var Redirect = o_.Redirect
var RedirectHandler = o_.RedirectHandler

type Request = o_.Request
type Response = o_.Response
type ResponseController = o_.ResponseController
type ResponseWriter = o_.ResponseWriter
type RoundTripper = o_.RoundTripper
type SameSite = o_.SameSite

const SameSiteDefaultMode = o_.SameSiteDefaultMode
const SameSiteLaxMode = o_.SameSiteLaxMode
const SameSiteNoneMode = o_.SameSiteNoneMode
const SameSiteStrictMode = o_.SameSiteStrictMode

var ServeContent = o_.ServeContent
var ServeFile = o_.ServeFile
var ServeFileFS = o_.ServeFileFS

type ServeMux = o_.ServeMux

var ServeTLS = o_.ServeTLS
var ServerContextKey = o_.ServerContextKey
var SetCookie = o_.SetCookie

const StateActive = o_.StateActive
const StateClosed = o_.StateClosed
const StateHijacked = o_.StateHijacked
const StateIdle = o_.StateIdle
const StateNew = o_.StateNew
const StatusAccepted = o_.StatusAccepted
const StatusAlreadyReported = o_.StatusAlreadyReported
const StatusBadGateway = o_.StatusBadGateway
const StatusBadRequest = o_.StatusBadRequest
const StatusConflict = o_.StatusConflict
const StatusContinue = o_.StatusContinue
const StatusCreated = o_.StatusCreated
const StatusEarlyHints = o_.StatusEarlyHints
const StatusExpectationFailed = o_.StatusExpectationFailed
const StatusFailedDependency = o_.StatusFailedDependency
const StatusForbidden = o_.StatusForbidden
const StatusFound = o_.StatusFound
const StatusGatewayTimeout = o_.StatusGatewayTimeout
const StatusGone = o_.StatusGone
const StatusHTTPVersionNotSupported = o_.StatusHTTPVersionNotSupported
const StatusIMUsed = o_.StatusIMUsed
const StatusInsufficientStorage = o_.StatusInsufficientStorage
const StatusInternalServerError = o_.StatusInternalServerError
const StatusLengthRequired = o_.StatusLengthRequired
const StatusLocked = o_.StatusLocked
const StatusLoopDetected = o_.StatusLoopDetected
const StatusMethodNotAllowed = o_.StatusMethodNotAllowed
const StatusMisdirectedRequest = o_.StatusMisdirectedRequest
const StatusMovedPermanently = o_.StatusMovedPermanently
const StatusMultiStatus = o_.StatusMultiStatus
const StatusMultipleChoices = o_.StatusMultipleChoices
const StatusNetworkAuthenticationRequired = o_.StatusNetworkAuthenticationRequired
const StatusNoContent = o_.StatusNoContent
const StatusNonAuthoritativeInfo = o_.StatusNonAuthoritativeInfo
const StatusNotAcceptable = o_.StatusNotAcceptable
const StatusNotExtended = o_.StatusNotExtended
const StatusNotFound = o_.StatusNotFound
const StatusNotImplemented = o_.StatusNotImplemented
const StatusNotModified = o_.StatusNotModified
const StatusOK = o_.StatusOK
const StatusPartialContent = o_.StatusPartialContent
const StatusPaymentRequired = o_.StatusPaymentRequired
const StatusPermanentRedirect = o_.StatusPermanentRedirect
const StatusPreconditionFailed = o_.StatusPreconditionFailed
const StatusPreconditionRequired = o_.StatusPreconditionRequired
const StatusProcessing = o_.StatusProcessing
const StatusProxyAuthRequired = o_.StatusProxyAuthRequired
const StatusRequestEntityTooLarge = o_.StatusRequestEntityTooLarge
const StatusRequestHeaderFieldsTooLarge = o_.StatusRequestHeaderFieldsTooLarge
const StatusRequestTimeout = o_.StatusRequestTimeout
const StatusRequestURITooLong = o_.StatusRequestURITooLong
const StatusRequestedRangeNotSatisfiable = o_.StatusRequestedRangeNotSatisfiable
const StatusResetContent = o_.StatusResetContent
const StatusSeeOther = o_.StatusSeeOther
const StatusServiceUnavailable = o_.StatusServiceUnavailable
const StatusSwitchingProtocols = o_.StatusSwitchingProtocols
const StatusTeapot = o_.StatusTeapot
const StatusTemporaryRedirect = o_.StatusTemporaryRedirect

var StatusText = o_.StatusText

const StatusTooEarly = o_.StatusTooEarly
const StatusTooManyRequests = o_.StatusTooManyRequests
const StatusUnauthorized = o_.StatusUnauthorized
const StatusUnavailableForLegalReasons = o_.StatusUnavailableForLegalReasons
const StatusUnprocessableEntity = o_.StatusUnprocessableEntity
const StatusUnsupportedMediaType = o_.StatusUnsupportedMediaType
const StatusUpgradeRequired = o_.StatusUpgradeRequired
const StatusUseProxy = o_.StatusUseProxy
const StatusVariantAlsoNegotiates = o_.StatusVariantAlsoNegotiates

var StripPrefix = o_.StripPrefix

const TimeFormat = o_.TimeFormat

var TimeoutHandler = o_.TimeoutHandler

const TrailerPrefix = o_.TrailerPrefix

type Transport = o_.Transport
