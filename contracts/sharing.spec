# Every function is verified as running alone. Connections, clients and calls run
# concurrently; these obligations say that they share nothing but what the
# contracts cover.

confined [C01 C02 C03 C04 C06 C07 C12 C23] the codec : protocol.Marshal*, protocol.Unmarshal*
confined [C05 C06 C07 C23] handling requests : protocol.Dispatch
confined [C08 C09 C10] serving : (*protocol.conn).serve, (*protocol.Listener).*, protocol.NewListener, protocol.Dispatch
confined [C11 C12 C13 C14 C24] clients : protocol.NewClient, (*protocol.Client).*
confined [C09 C15 C16 C17 C18 C19 C20 C21] the file server : ufs.NewUFS, (*ufs.FileServer).R*
confined [C09 C22] the debugging layer : (*debugfs.DebugFileServer).*

threads [C11 C12 C14 C24] protocol.Client : once (*protocol.Client).IO (*protocol.Client).readNetPackets ; ctor protocol.NewClient ; covered Tags FID RPC ToNet FromNet FromClient FromServer Dead Trace Msize done
threads [C08 C09 C10] protocol.Listener : once ; ctor protocol.NewListener ; covered nsCreator Addr Trace mu listeners

writers [C11 C12] protocol.Client.FromClient : protocol.NewClient
writers [C11 C12] protocol.Client.Tags : protocol.NewClient
writers [C11 C14 C24] protocol.Client.FromServer : protocol.NewClient
