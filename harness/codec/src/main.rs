//! Replays streams of the Codec specification through the packet decoder and encoder of the library,
//! over a loopback connection.  One job per line:
//! {"read": bool, "cap": capacity of the buffer, "cuts": [positions], "bytes": hex, "packets": [...]}
use bytes::BytesMut;
use ratelmq::mqtt::message::Message;
use ratelmq::mqtt::packets::connack::{ConnAckPacket, ConnAckReturnCode};
use ratelmq::mqtt::packets::puback::PubAckPacket;
use ratelmq::mqtt::packets::pubcomp::PubCompPacket;
use ratelmq::mqtt::packets::pubrec::PubRecPacket;
use ratelmq::mqtt::packets::pubrel::PubRelPacket;
use ratelmq::mqtt::packets::suback::{SubAckPacket, SubAckReturnCode};
use ratelmq::mqtt::packets::subscribe::SubscribePacket;
use ratelmq::mqtt::packets::unsuback::UnSubAckPacket;
use ratelmq::mqtt::packets::unsubscribe::UnsubscribePacket;
use ratelmq::mqtt::packets::{ConnectPacket, ControlPacket, DisconnectPacket, ProtocolVersion, PublishPacket, QoS};
use ratelmq::mqtt::subscription::Subscription;
use ratelmq::mqtt::transport::mqtt_bytes_stream::{MqttBytesReadStream, MqttBytesWriteStream};
use ratelmq::mqtt::transport::packet_decoder::read_packet;
use ratelmq::mqtt::transport::packet_encoder::write_packet;
use serde_json::{json, Value};
use std::io::{BufRead, BufReader};
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::net::{TcpListener, TcpStream};
use tokio::time::timeout;

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn raw(v: &Value) -> Vec<u8> {
    match v {
        Value::Array(a) => a.iter().map(|x| x.as_u64().unwrap() as u8).collect(),
        _ => Vec::new(),
    }
}

fn text(v: &Value) -> String {
    String::from_utf8(raw(v)).unwrap()
}

fn qos(v: &Value) -> QoS {
    match v.as_u64().unwrap() {
        0 => QoS::AtMostOnce,
        1 => QoS::AtLeastOnce,
        2 => QoS::ExactlyOnce,
        x => panic!("QoS {}", x),
    }
}

fn list(v: &Value) -> &[Value] {
    v.as_array().map(|a| a.as_slice()).unwrap_or(&[])
}

/// the library's value for a packet of the specification
fn packet(p: &Value) -> ControlPacket {
    let pid = p["pid"].as_u64().unwrap_or(0) as u16;
    match p["t"].as_str().unwrap() {
        "connect" => ControlPacket::Connect(ConnectPacket::new(
            ProtocolVersion::Mqtt3,
            text(&p["id"]),
            p["keep"].as_u64().unwrap() as u16,
            p["clean"].as_bool().unwrap(),
            list(&p["will"]).first().map(|w| Message {
                topic: text(&w["topic"]),
                payload: BytesMut::from(&raw(&w["payload"])[..]),
                qos: qos(&w["qos"]),
                retain: w["retain"].as_bool().unwrap(),
            }),
            list(&p["user"]).first().map(text),
            list(&p["pw"]).first().map(text),
        )),
        "connack" => ControlPacket::ConnAck(ConnAckPacket::new(
            p["sp"].as_bool().unwrap(),
            match p["code"].as_u64().unwrap() {
                0 => ConnAckReturnCode::Accepted,
                1 => ConnAckReturnCode::UnacceptableProtocolVersion,
                2 => ConnAckReturnCode::IdentifierRejected,
                3 => ConnAckReturnCode::ServerUnavailable,
                4 => ConnAckReturnCode::BadUserNameOrPassword,
                5 => ConnAckReturnCode::NotAuthorized,
                x => panic!("code {}", x),
            },
        )),
        "publish" => ControlPacket::Publish(PublishPacket::new(
            text(&p["topic"]),
            BytesMut::from(&raw(&p["payload"])[..]),
            qos(&p["qos"]),
            p["retain"].as_bool().unwrap(),
            if pid == 0 { None } else { Some(pid) },
            p["dup"].as_bool().unwrap(),
        )),
        "puback" => ControlPacket::PubAck(PubAckPacket::new(pid)),
        "pubrec" => ControlPacket::PubRec(PubRecPacket::new(pid)),
        "pubrel" => ControlPacket::PubRel(PubRelPacket::new(pid)),
        "pubcomp" => ControlPacket::PubComp(PubCompPacket::new(pid)),
        "subscribe" => ControlPacket::Subscribe(SubscribePacket::new(
            pid,
            list(&p["fs"]).iter().map(|f| Subscription::new(text(&f[0]), qos(&f[1]))).collect(),
        )),
        "suback" => ControlPacket::SubAck(SubAckPacket::new(
            pid,
            list(&p["codes"])
                .iter()
                .map(|c| match c.as_u64().unwrap() {
                    0 => SubAckReturnCode::SuccessQoS0,
                    1 => SubAckReturnCode::SuccessQoS1,
                    2 => SubAckReturnCode::SuccessQoS2,
                    _ => SubAckReturnCode::Failure,
                })
                .collect(),
        )),
        "unsubscribe" => ControlPacket::Unsubscribe(UnsubscribePacket::new(pid, list(&p["fs"]).iter().map(text).collect())),
        "unsuback" => ControlPacket::UnsubAck(UnSubAckPacket::new(pid)),
        "pingreq" => ControlPacket::PingReq,
        "pingresp" => ControlPacket::PingResp,
        "disconnect" => ControlPacket::Disconnect(DisconnectPacket::default()),
        x => panic!("packet {}", x),
    }
}

fn short(s: String) -> String {
    s.chars().take(400).collect()
}

async fn pair() -> (TcpStream, TcpStream) {
    let l = TcpListener::bind("127.0.0.1:0").await.unwrap();
    let a = l.local_addr().unwrap();
    let (x, y) = tokio::join!(TcpStream::connect(a), l.accept());
    let (x, y) = (x.unwrap(), y.unwrap().0);
    x.set_nodelay(true).unwrap();
    y.set_nodelay(true).unwrap();
    (x, y)
}

const LIMIT: Duration = Duration::from_secs(20);

async fn read(j: &Value) -> Result<usize, Value> {
    let (mut client, server) = pair().await;
    let bytes = unhex(j["bytes"].as_str().unwrap());
    let cuts: Vec<usize> = list(&j["cuts"]).iter().map(|x| x.as_u64().unwrap() as usize).collect();
    let w = tokio::spawn(async move {
        let mut at = 0;
        for c in cuts {
            if client.write_all(&bytes[at..c]).await.is_err() {
                return client;
            }
            tokio::time::sleep(Duration::from_millis(1)).await;
            at = c;
        }
        let _ = client.write_all(&bytes[at..]).await;
        let _ = client.shutdown().await;
        client
    });
    let (r, _w) = server.into_split();
    let mut s = MqttBytesReadStream::new(j["cap"].as_u64().unwrap() as usize, r);
    let mut n = 0;
    for p in list(&j["packets"]) {
        let want = packet(p);
        match timeout(LIMIT, read_packet(&mut s)).await {
            Err(_) => return Err(json!({"at": n, "want": short(format!("{:?}", want)), "got": "nothing"})),
            Ok(Err(e)) => return Err(json!({"at": n, "want": short(format!("{:?}", want)), "got": format!("error {}", e)})),
            Ok(Ok(got)) => {
                if got != want {
                    return Err(json!({"at": n, "want": short(format!("{:?}", want)), "got": short(format!("{:?}", got))}));
                }
            }
        }
        n += 1;
    }
    match timeout(LIMIT, read_packet(&mut s)).await {
        Ok(Err(_)) => {}
        x => return Err(json!({"at": n, "want": "the end of the stream", "got": short(format!("{:?}", x))})),
    }
    let _ = w.await;
    Ok(n)
}

async fn write(j: &Value) -> Result<usize, Value> {
    let (mut client, server) = pair().await;
    let want = unhex(j["bytes"].as_str().unwrap());
    let (_r, w) = server.into_split();
    let mut s = MqttBytesWriteStream::new(j["cap"].as_u64().unwrap() as usize, w);
    let packets: Vec<ControlPacket> = list(&j["packets"]).iter().map(packet).collect();
    let n = packets.len();
    let t = tokio::spawn(async move {
        for (i, p) in packets.into_iter().enumerate() {
            if let Err(e) = write_packet(&mut s, p).await {
                return Some((i, e.to_string()));
            }
        }
        None
    });
    let mut got = Vec::new();
    if timeout(LIMIT, client.read_to_end(&mut got)).await.is_err() {
        return Err(json!({"want": "the end of the stream", "got": "nothing", "bytes": got.len()}));
    }
    match t.await {
        Ok(None) => {}
        Ok(Some((i, e))) => return Err(json!({"at": i, "got": e})),
        Err(e) => return Err(json!({"got": e.to_string()})),
    }
    if got != want {
        let k = got.iter().zip(&want).take_while(|(a, b)| a == b).count();
        let part = |v: &Vec<u8>| v[k.saturating_sub(4).min(v.len())..(k + 12).min(v.len())].to_vec();
        return Err(json!({"byte": k, "want": part(&want), "got": part(&got), "lengths": [want.len(), got.len()]}));
    }
    Ok(n)
}

fn main() {
    let f = std::env::args().nth(1).unwrap();
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(6).enable_all().build().unwrap();
    let jobs: Vec<Value> = BufReader::new(std::fs::File::open(f).unwrap())
        .lines()
        .map(|l| serde_json::from_str(&l.unwrap()).unwrap())
        .collect();
    let out = rt.block_on(async move {
        let jobs = std::sync::Arc::new(jobs);
        let next = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(0));
        let mut ts = Vec::new();
        for _ in 0..12 {
            let (jobs, next) = (jobs.clone(), next.clone());
            ts.push(tokio::spawn(async move {
                let mut n = 0;
                loop {
                    let i = next.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    if i >= jobs.len() {
                        return Ok(n);
                    }
                    let (js, k) = (jobs.clone(), i);
                    // a panic of the code under test is a deviation
                    let r = tokio::spawn(async move {
                        let j = &js[k];
                        if j["read"].as_bool().unwrap() { read(j).await } else { write(j).await }
                    })
                    .await;
                    match r {
                        Ok(Ok(k)) => n += k,
                        Ok(Err(mut v)) => {
                            v["job"] = json!(i);
                            return Err(v);
                        }
                        Err(e) => return Err(json!({"job": i, "got": format!("panic: {}", e)})),
                    }
                }
            }));
        }
        let (mut n, mut bad) = (0, Value::Null);
        for t in ts {
            match t.await.unwrap() {
                Ok(k) => n += k,
                Err(v) => bad = v,
            }
        }
        if bad.is_null() { json!({"done": n}) } else { json!({"bad": bad}) }
    });
    println!("{}", out);
}
