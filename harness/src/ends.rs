//! Channel ends and children of every flavour behind one interface.
use crate::json::J;
use crate::msg::{Elem, Item, Msg, Table};
use crossmist::Object;
use std::future::Future;
use std::os::fd::{AsRawFd, FromRawFd, IntoRawFd, RawFd};
use std::pin::Pin;

pub type Fut<'a, T> = Pin<Box<dyn Future<Output = T> + 'a>>;

#[derive(Object)]
pub enum EndObj<T: Object> {
    BS(crossmist::Sender<T>),
    BR(crossmist::Receiver<T>),
    BD(crossmist::Duplex<T, T>),
    TS(crossmist::tokio::Sender<T>),
    TR(crossmist::tokio::Receiver<T>),
    TD(crossmist::tokio::Duplex<T, T>),
    SS(crossmist::smol::Sender<T>),
    SR(crossmist::smol::Receiver<T>),
    SD(crossmist::smol::Duplex<T, T>),
}
use EndObj::*;

impl<T: Object> EndObj<T> {
    pub fn raw(&self) -> RawFd {
        match self {
            BS(e) => e.as_raw_fd(),
            BR(e) => e.as_raw_fd(),
            BD(e) => e.as_raw_fd(),
            TS(e) => e.as_raw_fd(),
            TR(e) => e.as_raw_fd(),
            TD(e) => e.as_raw_fd(),
            SS(e) => e.as_raw_fd(),
            SR(e) => e.as_raw_fd(),
            SD(e) => e.as_raw_fd(),
        }
    }
    pub fn kind(&self) -> &'static str {
        match self {
            BS(_) => "BS",
            BR(_) => "BR",
            BD(_) => "BD",
            TS(_) => "TS",
            TR(_) => "TR",
            TD(_) => "TD",
            SS(_) => "SS",
            SR(_) => "SR",
            SD(_) => "SD",
        }
    }
}

pub fn wrong(what: &str) -> std::io::Error {
    std::io::Error::other(format!("HARNESS: {what}"))
}

impl<T: Elem> EndObj<T> {
    pub async fn send_val(&mut self, v: &T) -> std::io::Result<()> {
        match self {
            BS(e) => e.send(v),
            BD(e) => e.send(v),
            TS(e) => e.send(v).await,
            TD(e) => e.send(v).await,
            SS(e) => e.send(v).await,
            SD(e) => e.send(v).await,
            _ => Err(wrong("not a sending end")),
        }
    }
    pub async fn recv_val(&mut self) -> std::io::Result<Option<T>> {
        match self {
            BR(e) => e.recv(),
            BD(e) => e.recv(),
            TR(e) => e.recv().await,
            TD(e) => e.recv().await,
            SR(e) => e.recv().await,
            SD(e) => e.recv().await,
            _ => Err(wrong("not a receiving end")),
        }
    }
    pub async fn request_val(&mut self, v: &T) -> std::io::Result<T> {
        match self {
            BD(e) => e.request(v),
            TD(e) => e.request(v).await,
            SD(e) => e.request(v).await,
            _ => Err(wrong("not a duplex end")),
        }
    }
    pub fn convert_to(self, to: &str) -> Result<Self, String> {
        let err = |e: std::io::Error| e.to_string();
        Ok(match (self, to) {
            (BS(e), "t") => TS(e.try_into().map_err(err)?),
            (BR(e), "t") => TR(e.try_into().map_err(err)?),
            (BD(e), "t") => TD(e.try_into().map_err(err)?),
            (BS(e), "s") => SS(e.try_into().map_err(err)?),
            (BR(e), "s") => SR(e.try_into().map_err(err)?),
            (BD(e), "s") => SD(e.try_into().map_err(err)?),
            (BS(e), "raw") => BS(unsafe { crossmist::Sender::from_raw_fd(e.into_raw_fd()) }),
            (BR(e), "raw") => BR(unsafe { crossmist::Receiver::from_raw_fd(e.into_raw_fd()) }),
            (BD(e), "raw") => BD(unsafe { crossmist::Duplex::from_raw_fd(e.into_raw_fd()) }),
            (BD(e), "tx") => BS(e.into_sender()),
            (BD(e), "rx") => BR(e.into_receiver()),
            (TD(e), "tx") => TS(e.into_sender()),
            (TD(e), "rx") => TR(e.into_receiver()),
            (SD(e), "tx") => SS(e.into_sender()),
            (SD(e), "rx") => SR(e.into_receiver()),
            (e, to) => return Err(format!("HARNESS: cannot convert {} to {to}", e.kind())),
        })
    }
    pub fn channel(rt: &str) -> std::io::Result<(Self, Self)> {
        Ok(match rt {
            "b" => {
                let (a, b) = crossmist::channel()?;
                (BS(a), BR(b))
            }
            "t" => {
                let (a, b) = crossmist::tokio::channel()?;
                (TS(a), TR(b))
            }
            "s" => {
                let (a, b) = crossmist::smol::channel()?;
                (SS(a), SR(b))
            }
            _ => return Err(wrong("runtime")),
        })
    }
    pub fn duplex(rt: &str) -> std::io::Result<(Self, Self)> {
        Ok(match rt {
            "b" => {
                let (a, b) = crossmist::duplex()?;
                (BD(a), BD(b))
            }
            "t" => {
                let (a, b) = crossmist::tokio::duplex()?;
                (TD(a), TD(b))
            }
            "s" => {
                let (a, b) = crossmist::smol::duplex()?;
                (SD(a), SD(b))
            }
            _ => return Err(wrong("runtime")),
        })
    }
}

pub enum Got {
    Value(J, Vec<Item>),
    None,
    Err(std::io::Error),
}

/// Prepared value of unknown type.
pub trait Prepared: Send {
    fn restore(self: Box<Self>, spec: &J, t: &mut Table);
    fn any(&self) -> &dyn std::any::Any;
}
struct Prep<T>(T);
impl<T: Elem> Prepared for Prep<T> {
    fn restore(self: Box<Self>, spec: &J, t: &mut Table) {
        self.0.restore(spec, t)
    }
    fn any(&self) -> &dyn std::any::Any {
        &self.0
    }
}

pub trait DynEnd: Send {
    fn prepare(&self, spec: &J, t: &mut Table) -> Result<Box<dyn Prepared>, String>;
    fn send<'a>(&'a mut self, v: &'a dyn Prepared) -> Fut<'a, std::io::Result<()>>;
    fn recv<'a>(&'a mut self) -> Fut<'a, Got>;
    fn request<'a>(&'a mut self, v: &'a dyn Prepared) -> Fut<'a, Got>;
    fn convert(self: Box<Self>, to: &str) -> Result<Box<dyn DynEnd>, String>;
    fn raw(&self) -> RawFd;
    fn kind(&self) -> &'static str;
    fn into_item(self: Box<Self>) -> Result<Item, String>;
}

fn got<T: Elem>(r: std::io::Result<Option<T>>) -> Got {
    match r {
        Ok(Some(v)) => {
            let (d, l) = v.describe();
            Got::Value(d, l)
        }
        Ok(None) => Got::None,
        Err(e) => Got::Err(e),
    }
}

impl<T: Elem> DynEnd for EndObj<T> {
    fn prepare(&self, spec: &J, t: &mut Table) -> Result<Box<dyn Prepared>, String> {
        Ok(Box::new(Prep(T::build(spec, t)?)))
    }
    fn send<'a>(&'a mut self, v: &'a dyn Prepared) -> Fut<'a, std::io::Result<()>> {
        let v: &T = v.any().downcast_ref().unwrap();
        Box::pin(self.send_val(v))
    }
    fn recv<'a>(&'a mut self) -> Fut<'a, Got> {
        Box::pin(async { got(self.recv_val().await) })
    }
    fn request<'a>(&'a mut self, v: &'a dyn Prepared) -> Fut<'a, Got> {
        let v: &T = v.any().downcast_ref().unwrap();
        Box::pin(async { got(self.request_val(v).await.map(Some)) })
    }
    fn convert(self: Box<Self>, to: &str) -> Result<Box<dyn DynEnd>, String> {
        Ok(Box::new((*self).convert_to(to)?))
    }
    fn raw(&self) -> RawFd {
        EndObj::raw(self)
    }
    fn kind(&self) -> &'static str {
        EndObj::kind(self)
    }
    fn into_item(self: Box<Self>) -> Result<Item, String> {
        let b: Box<dyn std::any::Any> = self;
        let b = match b.downcast::<EndObj<Msg>>() {
            Ok(e) => return Ok(Item::M(*e)),
            Err(b) => b,
        };
        let b = match b.downcast::<EndObj<[u8; 16384]>>() {
            Ok(e) => return Ok(Item::P(*e)),
            Err(b) => b,
        };
        match b.downcast::<EndObj<u64>>() {
            Ok(e) => Ok(Item::W(*e)),
            Err(_) => Err("HARNESS: this element type cannot be sent".into()),
        }
    }
}

macro_rules! by_elem {
    ($el:expr, $T:ident => $body:expr) => {
        match $el {
            "M" => { type $T = Msg; $body }
            "W" => { type $T = u64; $body }
            "U" => { type $T = (); $body }
            "S" => { type $T = String; $body }
            "R" => { type $T = crate::msg::Rec; $body }
            "E" => { type $T = Result<Msg, String>; $body }
            "B0" => { type $T = [u8; 0]; $body }
            "B1" => { type $T = [u8; 1]; $body }
            "B16375" => { type $T = [u8; 16375]; $body }
            "B16382" => { type $T = [u8; 16382]; $body }
            "B16383" => { type $T = [u8; 16383]; $body }
            "P" | "B16384" => { type $T = [u8; 16384]; $body }
            "B16385" => { type $T = [u8; 16385]; $body }
            "B32766" => { type $T = [u8; 32766]; $body }
            "B32767" => { type $T = [u8; 32767]; $body }
            "B32768" => { type $T = [u8; 32768]; $body }
            "B40000" => { type $T = [u8; 40000]; $body }
            "B49149" => { type $T = [u8; 49149]; $body }
            "B49150" => { type $T = [u8; 49150]; $body }
            x => Err(wrong(&format!("element type {x}"))),
        }
    };
}
pub(crate) use by_elem;

pub type EndPair = (Box<dyn DynEnd>, Box<dyn DynEnd>);

pub fn make_pair(el: &str, rt: &str, duplex: bool) -> std::io::Result<EndPair> {
    by_elem!(el, T => {
        let (a, b) = if duplex { EndObj::<T>::duplex(rt)? } else { EndObj::<T>::channel(rt)? };
        Ok((Box::new(a) as _, Box::new(b) as _))
    })
}

pub trait DynChild: Send {
    fn id(&self) -> i32;
    fn kill_handle(&self) -> crossmist::KillHandle;
    fn join(self: Box<Self>) -> Fut<'static, Got>;
    fn rt(&self) -> &'static str;
}
impl<T: Elem> DynChild for crossmist::Child<T> {
    fn id(&self) -> i32 {
        crossmist::Child::id(self)
    }
    fn kill_handle(&self) -> crossmist::KillHandle {
        self.get_kill_handle()
    }
    fn join(self: Box<Self>) -> Fut<'static, Got> {
        Box::pin(async { got(crossmist::Child::join(*self).map(Some)) })
    }
    fn rt(&self) -> &'static str {
        "b"
    }
}
impl<T: Elem> DynChild for crossmist::tokio::Child<T> {
    fn id(&self) -> i32 {
        crossmist::asynchronous::Child::id(self)
    }
    fn kill_handle(&self) -> crossmist::KillHandle {
        self.get_kill_handle()
    }
    fn join(self: Box<Self>) -> Fut<'static, Got> {
        Box::pin(async { got((*self).join().await.map(Some)) })
    }
    fn rt(&self) -> &'static str {
        "t"
    }
}
impl<T: Elem> DynChild for crossmist::smol::Child<T> {
    fn id(&self) -> i32 {
        crossmist::asynchronous::Child::id(self)
    }
    fn kill_handle(&self) -> crossmist::KillHandle {
        self.get_kill_handle()
    }
    fn join(self: Box<Self>) -> Fut<'static, Got> {
        Box::pin(async { got((*self).join().await.map(Some)) })
    }
    fn rt(&self) -> &'static str {
        "s"
    }
}
