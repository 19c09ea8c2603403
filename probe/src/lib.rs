//! Never run. Type-checked, and its MIR analysed, against the current tree:
//! `sharing` fails to compile when a public type stops being Send and Sync;
//! `till_match` is an expansion of `take_till_match!` over an arbitrary input type and inner parser.
use ferrous_chloride::take_till_match;
use ferrous_chloride::utils::SafeIndexing;
use nom::{call, AtEof, IResult, InputLength, InputTake, Slice};
use std::ops::RangeFrom;

pub fn till_match<I, O, F>(input: I, inner: F) -> IResult<I, (I, O)>
where
    I: SafeIndexing + InputTake + InputLength + AtEof + Slice<RangeFrom<usize>> + Clone,
    F: Fn(I) -> IResult<I, O>,
{
    take_till_match!(input, call!(inner))
}

/// the form of the macro that takes a function
pub fn till_match_fn<I, O, F>(input: I, inner: F) -> IResult<I, (I, O)>
where
    I: SafeIndexing + InputTake + InputLength + AtEof + Slice<RangeFrom<usize>> + Clone,
    F: Fn(I) -> IResult<I, O>,
{
    take_till_match!(input, inner)
}

mod sharing {
    use ferrous_chloride as fc;
    use std::collections::HashMap;

    fn shared<T: Send + Sync>() {}

    #[allow(dead_code)]
    fn all<'a>() {
        // values
        shared::<fc::Value<'a>>();
        shared::<fc::value::MapValues<'a>>();
        shared::<fc::value::Block<'a>>();
        shared::<fc::KeyValuePairs<String, String>>();
        shared::<fc::OneOrMany<String>>();
        shared::<fc::MergeBehaviour>();
        // syntax tree
        shared::<fc::parser::expression::Expression<'a>>();
        shared::<fc::parser::number::Number<'a>>();
        shared::<fc::parser::object::ObjectElementIdentifier<'a>>();
        shared::<fc::parser::object::Object<'a>>();
        shared::<fc::parser::tuple::Tuple<'a>>();
        shared::<fc::parser::body::BodyElement<'a>>();
        shared::<fc::parser::body::Body<'a>>();
        shared::<fc::parser::block::Block<'a>>();
        shared::<fc::parser::block::BlockLabel<'a>>();
        // indices
        shared::<fc::parser::block::Blocks<'a>>();
        shared::<fc::parser::block::BlockBody<'a>>();
        shared::<HashMap<fc::parser::block::BlockLabel<'a>, fc::parser::block::BlockBody<'a>>>();
        // errors
        shared::<fc::Error>();
        shared::<fc::serde::de::Error>();
    }
}
