//! C05 (dispatcher part): the key length a generated dispatcher picks and reports.
//! Key sets are compile-time constants (the macro computes at const time); which two keys are compared
//! is symbolic.
use crate::mock::*;
use crate::util::*;
use postcard_rpc::header::*;
use postcard_rpc::server::{Dispatch, Sender, WireSpawn};
use postcard_rpc::standard_icd::*;
use postcard_rpc::*;

#[derive(Clone)]
pub struct Sp;
impl WireSpawn for Sp {
    type Error = ();
    type Info = ();
    fn info(&self) -> &() {
        &()
    }
}
pub fn spawner<F>(_: &Sp, _: F) -> Result<(), ()> {
    Err(())
}
pub struct Ctx;

/// `k` with bytes `i` and `j` changed so that their XOR stays the same
const fn twin(k: Key, i: usize, j: usize) -> Key {
    let mut b = k.to_bytes();
    b[i] ^= 0x5A;
    b[j] ^= 0x5A;
    unsafe { Key::from_bytes(b) }
}
const fn kk(b: [u8; 8]) -> Key {
    unsafe { Key::from_bytes(b) }
}

macro_rules! case {
    ($m:ident, $req:expr, $resp:expr, $tin:expr, $tout:expr) => {
        pub mod $m {
            use super::*;
            pub struct Ep;
            impl Endpoint for Ep {
                type Request = u8;
                type Response = u8;
                const PATH: &'static str = "p";
                const REQ_KEY: Key = $req;
                const RESP_KEY: Key = $resp;
            }
            pub struct Tp;
            impl Topic for Tp {
                type Message = u8;
                const PATH: &'static str = "t";
                const TOPIC_KEY: Key = $tin;
            }
            fn ep_h(_: &mut Ctx, _: VarHeader, r: u8) -> u8 {
                r
            }
            fn tp_h(_: &mut Ctx, _: VarHeader, _: u8, _: &Sender<Tx>) {}
            const EPS: EndpointMap = EndpointMap {
                types: &[],
                endpoints: &[
                    (Ep::PATH, Ep::REQ_KEY, Ep::RESP_KEY),
                    (PingEndpoint::PATH, PingEndpoint::REQ_KEY, PingEndpoint::RESP_KEY),
                    (GetAllSchemasEndpoint::PATH, GetAllSchemasEndpoint::REQ_KEY, GetAllSchemasEndpoint::RESP_KEY),
                ],
            };
            const TIN: TopicMap = TopicMap { direction: TopicDirection::ToServer, types: &[], topics: &[(Tp::PATH, Tp::TOPIC_KEY)] };
            const TOUT: TopicMap = TopicMap {
                direction: TopicDirection::ToClient,
                types: &[],
                topics: &[
                    ("o", $tout),
                    (GetAllSchemaDataTopic::PATH, GetAllSchemaDataTopic::TOPIC_KEY),
                    (LoggingTopic::PATH, LoggingTopic::TOPIC_KEY),
                ],
            };
            define_dispatch! {
                app: App;
                spawn_fn: spawner;
                tx_impl: Tx;
                spawn_impl: Sp;
                context: Ctx;
                endpoints: {
                    list: EPS;
                    | EndpointTy | kind     | handler |
                    | ---------- | ----     | ------- |
                    | Ep         | blocking | ep_h    |
                };
                topics_in: {
                    list: TIN;
                    | TopicTy | kind     | handler |
                    | ------- | ----     | ------- |
                    | Tp      | blocking | tp_h    |
                };
                topics_out: {
                    list: TOUT;
                };
            }
            pub fn run(expect_at_least: u8) {
                let app = App::new(Ctx, Sp);
                let w = kind_w(app.min_key_len());
                let m = app.device_map;
                assert!(kind_w(m.min_key_len) == w, "one key length reported everywhere");
                // the map offered to clients is the lists given
                assert!(m.endpoints.len() == 3 && m.topics_in.len() == 1 && m.topics_out.len() == 3);
                assert!(m.endpoints[0].1.to_bytes() == $req.to_bytes() && m.endpoints[0].2.to_bytes() == $resp.to_bytes());
                assert!(m.topics_in[0].1.to_bytes() == $tin.to_bytes() && m.topics_out[0].1.to_bytes() == $tout.to_bytes());
                let received = [$req, $tin, PingEndpoint::REQ_KEY, GetAllSchemasEndpoint::REQ_KEY];
                let sent = [
                    $resp,
                    $tout,
                    PingEndpoint::RESP_KEY,
                    GetAllSchemasEndpoint::RESP_KEY,
                    GetAllSchemaDataTopic::TOPIC_KEY,
                    LoggingTopic::TOPIC_KEY,
                    ERROR_KEY,
                ];
                let (i, j): (usize, usize) = (kani::any(), kani::any());
                kani::assume(i < j && j < 4);
                assert!(fold_to(received[i].to_bytes(), w) != fold_to(received[j].to_bytes(), w), "received keys told apart");
                let (i, j): (usize, usize) = (kani::any(), kani::any());
                kani::assume(i < j && j < 7);
                assert!(fold_to(sent[i].to_bytes(), w) != fold_to(sent[j].to_bytes(), w), "sent keys told apart");
                assert!(w >= expect_at_least);
                kani::cover!(true, "end");
            }
        }
    };
}
const R: Key = kk([1, 2, 3, 4, 5, 6, 7, 8]);
const S: Key = kk([0x51, 0x22, 0x33, 0x44, 0x55, 0x66, 0x77, 0x18]);
const T: Key = kk([0x91, 0x22, 0x33, 0x24, 0x55, 0x16, 0x77, 0x19]);
const U: Key = kk([0xE1, 0x12, 0x33, 0x2F, 0x55, 0x76, 0x71, 0x1A]);
case!(plain, R, S, T, U);
case!(req_vs_topic_in, R, S, twin(R, 0, 7), U);
case!(req_vs_ping, twin(PingEndpoint::REQ_KEY, 0, 3), S, T, U);
case!(resp_vs_topic_out, R, S, T, twin(S, 4, 5));
case!(resp_vs_logging, R, twin(LoggingTopic::TOPIC_KEY, 1, 2), T, U);
case!(resp_vs_error, R, twin(ERROR_KEY, 0, 2), T, U);
case!(topic_out_vs_error, R, S, T, twin(ERROR_KEY, 6, 7));

macro_rules! h {
    ($($n:ident $m:ident $w:literal;)*) => {$(
        #[kani::proof]
        #[kani::unwind(10)]
        fn $n() {
            $m::run($w);
        }
    )*};
}
h! {
    c05_app_plain plain 1;
    c05_app_req_vs_topic_in req_vs_topic_in 2;
    c05_app_req_vs_ping req_vs_ping 4;
    c05_app_resp_vs_topic_out resp_vs_topic_out 8;
    c05_app_resp_vs_logging resp_vs_logging 4;
    c05_app_resp_vs_error resp_vs_error 4;
    c05_app_topic_out_vs_error topic_out_vs_error 8;
}
