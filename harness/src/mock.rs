//! A provider holding a fixed list of (component, identifier, tag, string) records in memory.
use i18n_lexer::IcuDataProvider;
use i18n_localiser::*;
use i18n_provider::*;
use i18n_utility::*;
use std::cell::Cell;
use std::collections::HashMap;
use std::rc::Rc;

pub struct Rec {
    pub component: &'static str,
    pub identifier: &'static str,
    pub tag: Rc<LanguageTag>,
    pub string: String,
}
pub struct Mock {
    pub recs: Vec<Rec>,
    pub default: Rc<LanguageTag>,
    /// Number of requests for strings.
    pub calls: Rc<Cell<u32>>,
}
impl Mock {
    fn find(&self, c: &str, i: &str, t: &str) -> Option<&Rec> {
        self.recs
            .iter()
            .find(|r| r.component == c && r.identifier == i && r.tag.as_str() == t)
    }
}
impl LocalisationProviderTrait for Mock {
    fn string(
        &self,
        component: &str,
        identifier: &str,
        language_tag: &Rc<LanguageTag>,
    ) -> Result<Option<(String, Rc<LanguageTag>)>, ProviderError> {
        self.calls.set(self.calls.get() + 1);
        if component == "broken" {
            return Err(ProviderError::ComponentNotFound(component.to_string()));
        }
        // walk the tag towards its base language
        let mut t = language_tag.as_str();
        loop {
            if let Some(r) = self.find(component, identifier, t) {
                return Ok(Some((r.string.clone(), Rc::clone(&r.tag))));
            }
            match t.rfind('-') {
                Some(p) => t = &t[..p],
                None => return Ok(None),
            }
        }
    }
    fn string_exact_match(
        &self,
        component: &str,
        identifier: &str,
        language_tag: &Rc<LanguageTag>,
    ) -> Result<Option<(String, Rc<LanguageTag>)>, ProviderError> {
        Ok(self
            .find(component, identifier, language_tag.as_str())
            .map(|r| (r.string.clone(), Rc::clone(&r.tag))))
    }
    fn strings(
        &self,
        _c: &str,
        _i: &str,
        _l: &Rc<LanguageTag>,
    ) -> Result<Vec<(String, Rc<LanguageTag>)>, ProviderError> {
        Ok(vec![])
    }
    fn identifier_details(&self, _c: &str, _i: &str) -> Result<IdentifierDetails, ProviderError> {
        Ok(IdentifierDetails {
            languages: vec![],
            default: Rc::clone(&self.default),
        })
    }
    fn component_details(&self, _c: &str) -> Result<Rc<ComponentDetails>, ProviderError> {
        Ok(Rc::new(ComponentDetails {
            languages: HashMap::new(),
            default: Rc::clone(&self.default),
            total_strings: self.recs.len(),
        }))
    }
    fn repository_details(&self) -> Result<Rc<RepositoryDetails>, ProviderError> {
        Ok(Rc::new(RepositoryDetails {
            languages: HashMap::new(),
            default: Some(Rc::clone(&self.default)),
            total_strings: self.recs.len(),
            components: vec![],
            contributors: vec![],
        }))
    }
}
pub struct World {
    pub registry: Rc<LanguageTagRegistry>,
    pub localiser: Localiser,
    pub commands: Rc<CommandRegistry>,
}
pub fn world(
    icu: &Rc<IcuDataProvider>,
    registry: &Rc<LanguageTagRegistry>,
    mock: Mock,
    fallback: bool,
    caching: bool,
    lang: &str,
) -> World {
    let commands = Rc::new(CommandRegistry::new());
    let localiser =
        Localiser::try_new(icu, registry, Box::new(mock), &commands, fallback, caching, lang).unwrap_or_else(|_| panic!());
    World {
        registry: Rc::clone(registry),
        localiser,
        commands,
    }
}
/// A localiser whose component "c" has the one string "s" in language `lang`.
pub fn one(pattern: String, lang: &str) -> (World, Rc<LanguageTag>) {
    let icu = crate::p_lexer::icu();
    let registry = Rc::new(LanguageTagRegistry::new());
    let tag = registry.tag(lang).unwrap_or_else(|_| panic!());
    let mock = Mock {
        recs: vec![Rec {
            component: "c",
            identifier: "s",
            tag: Rc::clone(&tag),
            string: pattern,
        }],
        default: Rc::clone(&tag),
        calls: Rc::new(Cell::new(0)),
    };
    (world(&icu, &registry, mock, false, false, lang), tag)
}
