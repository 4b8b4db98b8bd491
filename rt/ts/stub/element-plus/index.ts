// What generated code needs of element-plus, as far as types go.
export interface LocaleContext {
    t(path: string): string
}

export function useLocale(): LocaleContext {
    return {t: (path: string) => path}
}
