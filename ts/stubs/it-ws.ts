// @aptre/it-ws/duplex: the test's web sockets are duplexes already
export default (socket: any) => socket
