use moledyn::prelude::*;
use moledyn::iterator::{LinkedList, Node};
type L = LinkedList<f64>;
type M = LinkedList<ContPassiveMergeAgent>;
type R<T> = Result<T, Error>;
pub fn new() -> L { LinkedList::new() }
pub fn from(v: Vec<f64>) -> L { LinkedList::from(v) }
pub fn push(l: &mut L, x: f64) { l.push(x) }
pub fn del(l: &mut L, i: usize) -> R<()> { l.del(i) }
pub fn connect_all(l: &mut L) -> R<()> { l.connect_all() }
pub fn into_iter(l: &mut L) { l.into_iter() }
pub fn into_double_iter(l: &mut L) { l.into_double_iter() }
pub fn get(l: &mut L) -> Option<&f64> { l.get() }
pub fn get_mut(l: &mut L) -> Option<&mut f64> { l.get_mut() }
pub fn enumerate(l: &mut L) -> Option<(usize, &f64)> { l.enumerate() }
pub fn enumerate_mut(l: &mut L) -> Option<(usize, &mut f64)> { l.enumerate_mut() }
pub fn indicies(l: &mut L) -> Option<usize> { l.indicies() }
pub fn get_double(l: &mut L) -> Option<(&f64, &f64)> { l.get_double() }
pub fn enumerate_double(l: &mut L) -> Option<(usize, &f64, usize, &f64)> { l.enumerate_double() }
pub fn indicies_double(l: &mut L) -> Option<(usize, usize)> { l.indicies_double() }
pub fn merge(l: &mut M, i: usize, j: usize) -> R<()> { l.merge(i, j) }
